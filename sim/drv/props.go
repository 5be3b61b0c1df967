package main

func variantsOf(prop string) []variant {
	switch prop {
	case "C01":
		return []variant{{name: "conc", weight: 3, batch: 1}, {name: "fam", weight: 2, batch: 12}, {name: "feat", weight: 1, batch: 12}, {name: "conc-race", weight: 4, batch: 1, race: true}}
	case "C02", "C04":
		return []variant{{name: "conc", weight: 3, batch: 1}, {name: "fam", weight: 2, batch: 12}, {name: "feat", weight: 1, batch: 12}, {name: "conc-race", weight: 4, batch: 1, race: true}}
	case "C05":
		return []variant{{name: "maps", weight: 7, batch: 6}, {name: "unions", weight: 3, batch: 12}}
	case "C15":
		return []variant{{name: "hist", weight: 5, batch: 10}, {name: "conc", weight: 3, batch: 1}, {name: "text", weight: 2, batch: 20}}
	case "C16":
		return []variant{{name: "hist", weight: 7, batch: 10}, {name: "rset", weight: 3, batch: 200}}
	case "C12":
		return []variant{{name: "clock", weight: 10, batch: 30}}
	}
	return []variant{{name: "hist", weight: 10, batch: 10}}
}

const histRule = "A case is a seeded history: initial graphs, a tree of contexts, registered functions, a property filter, about 10 statements and a sequence of up to 60 operations (statements evaluated again or parsed afresh, context operations, relative searches, faults in callbacks). Every operation is one evaluation; its result, the graphs and the contexts are compared with the reference model. Distinct: different state before the operation or different operation. Non-trivial: it returned rows, changed a graph, or a fault fired."

const concRule = "A case is a set of 2 to 4 sessions, each with a sequence of operations, and schedules of the simulator (random, priority based, preemption at chosen code sites). One evaluation is one schedule; every operation of every session is compared with the session run alone. Distinct: different case or different interleaving. Non-trivial: sessions were switched in the middle of their work, not only when one ended."

// ruleOf says how cases are made, and what makes one non-trivial
func ruleOf(prop string) string {
	switch prop {
	case "C01", "C02", "C04":
		return concRule + " Some cases run one statement family with different arguments in every session, or short statements that use the same part of the code. Half of the time goes to runs of a build with the race detector, which report races only."
	case "C05":
		return "A case is a seeded history without statements that depend on the order of rows, evaluated under four iteration orders of all maps of the code under test. One evaluation is one operation under all orders. Distinct: different statement or result. Non-trivial: the result or graph is not empty."
	case "C12":
		return "A case is a seeded history of statements with clock functions, clock jumps (between evaluations and at chosen clock readings), local zones and zone failures. One evaluation is one statement at one time. Distinct: different statement, time or zone. Non-trivial: the clock was read, an error was due, or the local zone is not UTC."
	case "C15":
		return histRule + " Step bounds are checked on each. Also: concurrent cases with stalling callbacks (" + concRule + ") and texts, half of them damaged or deeply nested, which have to be parsed to an end, and evaluated if they are constant expressions (non-trivial: longer than 3 characters)."
	case "C16":
		return histRule + " Also: seeded histories of operations on result sets (non-trivial: a product with a combination, a union or an append)."
	}
	return histRule
}
