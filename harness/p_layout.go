package main

import "pgregory.net/rapid"

func genLayout(t *rapid.T) Layout {
	l := Layout{Seed: rapid.Uint64().Draw(t, "layseed")}
	b := func(n string) bool { return rapid.Bool().Draw(t, n) }
	l.Order, l.Extra, l.Blank, l.CRLF, l.Names, l.Trail = b("order"), b("extra"), b("blank"), b("crlf"), b("names"), b("trail")
	l.Deleted, l.Stats, l.Short, l.Rewrite, l.DropPut, l.Renum = b("deleted"), b("stats"), b("short"), b("rewrite"), b("dropput"), b("renum")
	l.BigEnd, l.Share = pct(t, "bigend", 30), pct(t, "share", 30)
	l.IntL, l.Esc = ir(t, "intl", 0, 2), ir(t, "esc", 0, 2)
	return l
}
