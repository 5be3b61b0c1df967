package main

func profileOf(prop string) Profile {
	p := Profile{Stmts: 10, Ops: 60, Graphs: 1, Optional: 25, Big: 4, Long: 3}
	switch prop {
	case "C03":
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Union, p.Value, p.Bad = 30, 15, 10, 12, 4, 4, 8, 12, 5
		p.Fns, p.Nested, p.Faults, p.Filter = 25, true, 12, 20
		p.Graphs, p.Ctxs, p.Tree, p.CtxOps, p.Reg = 3, 4, true, 15, 5
		p.RelStmts, p.Rel = 2, 15
		p.Fresh = 3
		p.Focus = 25
	case "C05":
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Union, p.Value, p.Bad = 30, 16, 12, 16, 5, 6, 14, 4, 3
		p.Fns, p.Filter, p.Graphs, p.Ctxs = 10, 45, 2, 2
		p.NullParams = 6
		p.RelStmts, p.Rel, p.NoLimit = 3, 12, true
		p.Fresh, p.MatchClauses = 5, 3
	case "C06":
		p.Read, p.Create, p.Set, p.Remove, p.Delete, p.Value = 60, 10, 6, 3, 6, 3
		p.Simple = 35
		p.Ctxs, p.Tree, p.CtxOps = 2, true, 8
		p.MatchClauses = 3
	case "C07":
		p.Read, p.Create, p.Delete = 10, 60, 8
		p.Ctxs, p.Tree, p.CtxOps = 2, true, 8
	case "C08":
		p.Read, p.Create, p.Merge, p.Set, p.Delete = 6, 10, 60, 5, 8
		p.Ctxs, p.Tree, p.CtxOps = 2, true, 8
	case "C09":
		p.Read, p.Create, p.Set, p.Remove, p.Delete = 6, 8, 50, 20, 4
		p.Optional, p.NullParams = 45, 5
		p.Ctxs, p.Tree, p.CtxOps = 2, true, 8
	case "C10":
		p.Read, p.Create, p.Merge, p.Delete = 10, 30, 5, 45
		p.Ctxs, p.Tree, p.CtxOps = 2, true, 8
		p.MaxN, p.MaxE = 9, 14
	case "C11":
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Union, p.Value, p.Bad = 15, 25, 15, 30, 2, 4, 4, 4, 12
		p.Fns, p.Faults, p.Filter = 40, 65, 60
		p.Focus, p.NullParams = 15, 5
		p.Ctxs, p.Tree, p.CtxOps = 3, true, 5
	case "C13":
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Union, p.Value, p.Bad = 35, 15, 8, 6, 2, 2, 8, 6, 8
		p.Graphs, p.Ctxs, p.Tree, p.CtxOps = 2, 6, true, 35
		p.NullParams = 10
	case "C14":
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete = 10, 25, 20, 35, 6, 3
		p.Filter, p.Ctxs, p.Tree, p.CtxOps, p.Faults = 85, 4, true, 10, 8
	case "C16":
		p.Union, p.Read, p.Create, p.Set, p.Delete = 70, 5, 8, 6, 4
		p.NoLimit = true
	case "C17":
		p.Read, p.Create, p.Set, p.Remove, p.Delete = 2, 20, 10, 5, 10
		p.RelStmts, p.Rel, p.Graphs, p.Ctxs = 8, 75, 3, 3
	case "C18":
		p.Read, p.Create, p.Merge, p.Set, p.Union, p.Value, p.Bad = 35, 12, 8, 14, 6, 20, 4
		p.Fns, p.Nested, p.Faults, p.Reg = 55, true, 20, 12
		p.Focus, p.NullParams = 15, 5
	case "C15":
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Union, p.Value, p.Bad = 40, 15, 10, 8, 2, 6, 12, 8, 4
		p.Fns, p.Nested, p.Graphs = 15, true, 1
		p.VarLen = 35
		p.MatchClauses = 3
	}
	return p
}
