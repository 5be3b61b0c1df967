#!/usr/bin/env python3
"""Writes ../properties.jsonl (the text of the properties lives here)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                   observe_at=observe,hook_needed=hook)))

prop('C01','Concurrent sessions on separate graphs are isolated',
 'Any number of threads may at the same time parse and evaluate queries, each with its own evaluation context on its own graph, including the very first use of every feature in a process. Each of them obtains exactly the results, errors, context variables and final graph it would obtain running alone, whatever the interleaving. No data race, deadlock or crash occurs.',
 ['schedules','programs'],'every set of sessions (parse, evaluate, register nothing), every interleaving of their steps, warm and cold process',
 'The tests are single-threaded; whether lazily built package state, the function table, parser tables or caches are shared between sessions is only visible under interleavings.',
 ['lang.go','ctx.go','functions.go','datefuncs.go','eval.go','parser/cypher_parser.go','parser/cypher_lexer.go'],
 [('global function table is only read during evaluation','functions.go: globalFuncs, ctx.go: getFunction'),('lexer and parser are built per call','lang.go: GetParser'),('third-party date tables are filled at package initialisation','datefuncs.go: init')],
 ['value or error returned by Parse/ParseAndEvaluate/Evaluate','final graph','happens-before races'],
 [('globalFuncs','name -> function','functions.go')])

prop('C02','Concurrent read-only queries on one graph do not interfere',
 'While nobody modifies a graph, any number of threads may evaluate reading queries and relative pattern searches on it at the same time, each with its own evaluation context. Each query returns exactly what it returns when run alone, and the graph stays exactly as it was. No data race occurs.',
 ['schedules','programs'],'every graph, every set of reading queries and relative searches, every interleaving',
 'No test evaluates two queries on one graph concurrently; a read path that memoises, sorts or touches the graph in place passes every sequential test.',
 ['patterneval.go','eval.go','lang.go','resultset.go'],
 [('match results are accumulated in per-evaluation objects','patterneval.go: matchResultAccumulator, GetResults'),('projection evaluates into fresh maps','eval.go: Project')],
 ['rows returned','graph snapshot before/after','happens-before races'])

prop('C03','A parsed query or pattern can be evaluated again and again',
 'A query or relative pattern parsed once may be evaluated any number of times, on different graphs and contexts, with different parameters, variables and registered functions, after evaluations that failed, and again from inside a function called by its own evaluation. Every evaluation behaves exactly like the evaluation of a freshly parsed copy. Result rows returned by earlier evaluations are not changed by later evaluations that do not modify the returned elements.',
 ['histories','programs','fault_sequences'],'every query, every history of evaluations (contexts, parameters, functions, graph states, injected failures, re-entrance)',
 'The tests parse a query for each evaluation; state kept in the parsed query only shows from the second evaluation on.',
 ['ast.go','eval.go','arithmeticeval.go','literal.go','patterneval.go','lang.go'],
 [('evaluation does not store anything in the parsed query','eval.go: functionInvocation.Evaluate; arithmeticeval.go; literal.go'),('patterns are rebuilt for every evaluation','patterneval.go: getPattern')],
 ['rows, errors and graph of the n-th evaluation compared with a fresh parse'],
 [('parsed query','immutable after parsing','ast.go')])

prop('C04','A parsed query can be shared by concurrent sessions',
 'One parsed query or relative pattern may be evaluated by any number of threads at the same time, each with its own evaluation context, parameters and graph. Each evaluation returns exactly what a private, freshly parsed copy would return and has the same effect on its graph. No data race occurs.',
 ['schedules','programs'],'every query, every set of contexts and parameters, every interleaving of the evaluations',
 'No test shares a parsed query between threads; evaluation-time caches and scratch space in the parsed form are invisible to sequential tests.',
 ['ast.go','eval.go','arithmeticeval.go','literal.go','patterneval.go','update.go','lang.go'],
 [('evaluation does not store anything in the parsed query','eval.go, arithmeticeval.go, literal.go, update.go')],
 ['rows, errors and graphs per session','happens-before races'])

prop('C05','Results do not depend on hash map iteration order',
 'For the same graph, context and statement, the outcome is the same for every iteration order of the hash maps used by the implementation: the same multiset of rows, success or failure, and the same resulting graph up to the identity of created elements. This covers statements whose meaning does not depend on the order of rows (no SKIP or LIMIT, no update whose effect on one row is read or overwritten by another row).',
 ['schedules','inputs','programs'],'every iteration order of every map, every graph and every statement of the stated kind',
 'Go randomises map iteration, so a test samples one order per run and a dependence shows up as a rare flake; nothing in the tests controls the order.',
 ['patterneval.go','update.go','resultset.go','eval.go','literal.go'],
 [('rows are maps from name to value, copied key by key','eval.go: singlePartQuery.Evaluate, Project; update.go'),('property maps of patterns','patterneval.go: getPattern, getPropertiesMap')],
 ['multiset of rows','final graph'])

prop('C06','MATCH returns exactly the matching rows',
 'A reading query (MATCH and OPTIONAL MATCH clauses with WHERE, RETURN, SKIP, LIMIT) returns exactly one row for every way its patterns embed in the graph consistently with shared variables, variables already bound in the context and the WHERE conditions, no matter what sequence of statements produced the graph. Returned nodes and relationships are those of the graph itself, projected values are those of the row, and SKIP n LIMIT m drops n rows and returns at most m. A reading query leaves the graph unchanged.',
 ['histories','inputs','programs'],'every history of creates, updates and deletes producing the graph, every supported pattern (labels, int and string properties, directed, undirected and bounded variable-length relationships, several parts and clauses)',
 'The tests query a handful of graphs built in one go; wrong joins, lost or duplicated rows after update histories need the product of graph shape, pattern shape and history.',
 ['patterneval.go','eval.go','ctx.go'],
 [('pattern parts are matched depth first, binding variables','patterneval.go: Match.GetResults'),('rows of one clause feed the next','eval.go: singlePartQuery.Evaluate'),('bound variables constrain the pattern','patterneval.go: BuildPatternSymbols')],
 ['multiset of rows','identity of returned elements','graph snapshot'])

prop('C07','CREATE creates its pattern exactly once per row',
 'CREATE adds, for every incoming row (once if there is none), exactly the nodes and relationships of its pattern that are not bound yet, with the given labels, type, direction and property values evaluated for that row, and nothing else. Variables that are already bound refer to the existing nodes, and the following clauses, RETURN and the context see the created elements of that row. Existing elements do not change.',
 ['histories','inputs','programs'],'every graph history, every CREATE pattern and every number of rows feeding it',
 'Tests create from fixed patterns with at most one row; per-row scoping errors need several rows and reused variables.',
 ['update.go'],
 [('pattern creation','update.go: create.Update, create.TopLevelUpdate, PatternPart.Create, nodePattern.Create, relationshipPattern.Create')],
 ['final graph','rows','context variables'])

prop('C08','MERGE matches or creates, never both, row by row',
 'For every incoming row in turn (once if there is none), MERGE either finds all matches of its pattern in the graph as it is at that moment and continues with one row for each, or, if there is none, creates the whole pattern exactly once and continues with that row. ON MATCH actions are applied to the matched rows only and ON CREATE actions to created rows only. Repeating a MERGE of given labels and properties does not create anything.',
 ['histories','inputs','programs'],'every graph history, MERGE pattern, number of rows, and position among other updating clauses',
 'Tests run single MERGEs; interactions of several rows (a row finding what an earlier row created), of bound variables and of actions need histories.',
 ['update.go'],
 [('match or create','update.go: merge.doMerge'),('actions','update.go: merge.processActions'),('per-row processing','update.go: merge.Update, merge.TopLevelUpdate')],
 ['final graph','rows','context variables'])

prop('C09','SET and REMOVE change exactly what they name, for every row',
 'SET and REMOVE apply their items in order to every incoming row and to nothing else: assigning a property sets or (null) removes it, = replaces all properties, += adds or overwrites the given ones and removes those given as null, and labels are added or removed as sets. All other properties, labels, nodes, relationships and rows stay as they were. Label- and property-based matching sees the new state right after the statement.',
 ['histories','inputs','programs'],'every graph history, every list of items and every set of rows',
 'Tests use one item on one node; cross-row and cross-item effects and stale indexes need histories.',
 ['update.go','eval.go'],
 [('SET items','update.go: set.Update, setItem.update'),('REMOVE','update.go: remove.Update'),('assignable property','eval.go: propertyExpression.Evaluate')],
 ['final graph','later MATCH results'])

prop('C10','DELETE removes exactly the selected elements',
 'DELETE removes exactly the nodes and relationships selected by its rows, each once however many rows select it; DETACH DELETE removes in addition exactly the relationships attached to the removed nodes. Without DETACH, deleting a node that keeps any relationship fails and then nothing at all is removed. Afterwards the graph is consistent: no relationship with a missing end, and counts, iteration, label lookups and adjacency agree.',
 ['histories','inputs','programs'],'every graph history with interleaved creates and deletes, every selection including repeated and overlapping ones',
 'Tests delete single elements from fresh graphs; double removal, order dependence and dangling relationships need overlapping rows and histories.',
 ['update.go'],
 [('collect, check, then remove','update.go: deleteClause.Update')],
 ['final graph','structural consistency of the graph'])

prop('C11','A failing statement is contained',
 'When a registered function or property filter fails (returns an error or panics) or an expression cannot be evaluated at any point of a statement, the caller gets that very error or panic, and no result. The calling context keeps exactly the variables it had, and the graph is exactly the one produced by the updates that precede the failure, every one of them applied completely. The same context, graph and parsed query can be used afterwards as if those updates had been made by other statements.',
 ['fault_sequences','crash_points','histories'],'every statement, every call of an injected function or filter as the failure point, error and panic, followed by any statements',
 'No test makes a function or filter fail; partial effects depend on the point of failure.',
 ['eval.go','update.go','ctx.go','patterneval.go'],
 [('errors are returned from every evaluation step','eval.go, update.go'),('variables are exported after success only','eval.go: regularQuery.Evaluate'),('filters are applied before a node changes','update.go: setItem.update, createNode')],
 ['error identity','context variables','final graph','behaviour of following statements'])

prop('C12','Clock functions follow the clock, explicit dates do not',
 'date() and timestamp() reflect the wall clock at the time of their evaluation, and date({timezone: z}) the calendar date in zone z at that time, across clock jumps, midnight and daylight-saving changes and also when the parsed query is evaluated again later. An unknown or unavailable zone is reported as an error. Dates given explicitly, by year, month and day, as ISO text or parsed with a complete format, do not depend on the clock or on the local time zone.',
 ['schedules','fault_sequences','configurations','inputs'],'every clock history (forward and backward jumps between and during evaluations), every local zone, zone lookup failures',
 'Tests cannot set the clock or the zone; a cached or wrongly zoned reading passes whenever the test does not cross a boundary.',
 ['functions.go','datefuncs.go','datetime.go'],
 [('clock reads','functions.go: timestampFunc; datefuncs.go: dateFunc'),('zone lookup','datefuncs.go: dateFunc'),('normalisation to a calendar date','datetime.go: NewDate')],
 ['values returned, compared with the simulated clock'],None,None)

prop('C13','Variables, parameters and scopes of contexts',
 'A context resolves variables and parameters in its own scope first and then in its ancestors; setting or removing in a derived context never affects its parent or siblings, and removing reveals the ancestor value. After a successful statement the calling context additionally has exactly the variables of the last row the statement bound and nothing has leaked to other contexts; after a failing one it has exactly what it had before. Variables bound by one statement constrain the patterns of the following statements in that context.',
 ['histories','programs'],'every history of context operations and statements over a tree of contexts',
 'Tests use one flat context and one or two statements; scoping errors show in histories over several contexts.',
 ['ctx.go','eval.go','update.go','patterneval.go'],
 [('scope chain','ctx.go: SubContext, GetVar, SetVar, RemoveVar, GetParameter'),('export of statement variables','eval.go: regularQuery.Evaluate')],
 ['GetVar/GetParameter results on every context after every step','rows of later statements'])

prop('C14','The property filter sees every written property value exactly once',
 'If a context has a property filter, every property value a statement writes to a node or relationship (by CREATE, MERGE, SET of a property, = or +=) passes through it exactly once, with the property name and the native value, and exactly the value it returns is stored. It is not called for matching, reading, removing properties or for values that are not written. Contexts derived from it use the same filter.',
 ['histories','programs','fault_sequences'],'every updating statement and filter behaviour (rewriting, stateful, failing)',
 'The tests set a filter nowhere; a write path that bypasses it or calls it twice is invisible unless the calls are recorded against the writes.',
 ['ctx.go','update.go','eval.go'],
 [('filter call','ctx.go: PropertyValueFromNative'),('write paths','update.go: createNode, relationshipPattern.Create, setItem.update; eval.go: propertyExpression.Evaluate')],
 ['sequence of filter calls','stored property values'])

prop('C15','Evaluation always terminates and never blocks other sessions',
 'On a finite graph, parsing any text and evaluating any supported statement comes to an end, after a number of steps bounded by the length of the text or the size of the search its patterns require, including with empty row sets, rows without variables, self-loops, parallel relationships and cycles. A session whose function or filter callback stalls, panics or evaluates further statements never prevents other sessions from completing.',
 ['schedules','fault_sequences','programs','inputs'],'every statement and graph, every point at which a callback stalls, fails or re-enters, every interleaving with other sessions',
 'A test suite cannot distinguish slow from never, and no test stalls a callback.',
 ['eval.go','update.go','patterneval.go','resultset.go','ctx.go','lang.go'],
 [('bounded loops over rows','eval.go, update.go, resultset.go'),('no locks held while calling back','ctx.go, functions.go')],
 ['completion within a step bound under the simulated scheduler'])

prop('C16','UNION and result set combination',
 'UNION returns the distinct rows of its queries and UNION ALL all rows of all of them, each query evaluated in its own scope on the graph left by the previous one; rows are the same only if they have equal values (null equals null, nodes and relationships by identity, lists and maps element by element) under the same columns. Cartesian products of columns and of result sets enumerate every combination exactly once, stop as soon as the consumer says so, and terminate for empty inputs. Combining result sets changes neither their rows nor their values.',
 ['histories','inputs','programs'],'every number of queries, rows and duplicates, every value kind, every history of the graph the queries run on, every map iteration order',
 'The tests check one product of one shape; UNION has no test and row identity has to hold for all kinds of values.',
 ['eval.go','resultset.go','value.go'],
 [('union','eval.go: regularQuery.Evaluate; resultset.go: Union, find'),('row identity','value.go: IsValueSame'),('products','resultset.go: CartesianProduct')],
 ['multiset of rows','combinations passed to the consumer'])

prop('C17','Relative pattern search returns exactly the reachable targets',
 'Searching a parsed relative pattern from a node returns exactly one entry per match of the pattern that starts at that node, namely the node matched as the target, taken from that node\'s own graph as it is at the time of the search. The search does not depend on previous searches with the same pattern, does not modify the graph, and can run for any number of start nodes and graphs in any order.',
 ['histories','inputs','schedules'],'every graph history, every supported pattern, every start node, every order and interleaving of searches',
 'The tests search two fixed graphs once each.',
 ['lang.go','patterneval.go'],
 [('fresh context per search with the start node bound','lang.go: FindRelative')],
 ['multiset of returned nodes','graph snapshot'])

prop('C18','Calls of registered functions',
 'A registered function is called exactly once for each row and occurrence at which its expression is evaluated, in order, with exactly the argument values of that row, and its value is what the expression yields. The function in effect is the one registered under that name at the time of the evaluation; an unknown name or a wrong number of arguments is an error before any call. An error it returns is returned to the caller of the statement and can be identified with errors.Is/As, and it may evaluate other statements, with its own or the given context, without disturbing the statement calling it.',
 ['histories','programs','fault_sequences'],'every statement and position of a call, every history of registrations, failing and re-entrant functions',
 'The tests register one function; call counts, arguments per row and later registrations need recorded call histories.',
 ['functions.go','eval.go','ctx.go'],
 [('invocation','eval.go: functionInvocation.Evaluate'),('registration','functions.go: RegisterGlobalFunc; ctx.go: GetFunction')],
 ['recorded calls and arguments','returned values and errors'])

prop('C19','Arithmetic, comparison and logical operators',
 'Arithmetic, string, list, comparison and three-valued logical operators, CASE and list indexing yield the values openCypher defines for their operand types, null propagates as defined, and unsupported operand types are errors.',
 ['inputs'],'all operand values and types',
 'The tests sample a few expressions.',
 ['arithmeticeval.go','relationaleval.go','eval.go','literal.go'],[('operators','arithmeticeval.go, relationaleval.go')],['value or error'])
prop('C20','Built-in string, conversion and range functions',
 'The built-in string, conversion, range and size functions return the documented value for every argument, null for null, and an error for arguments of the wrong type, never a panic.',
 ['inputs'],'all argument values','The tests call none to few of them.',
 ['stringfuncs.go','scalarfuncs.go','functions.go'],[('functions','stringfuncs.go, scalarfuncs.go, functions.go')],['value or error'])
prop('C21','The parser accepts exactly the grammar and keeps the meaning of the text',
 'Text outside the grammar is rejected with a syntax error and text inside it is translated to a query with the meaning of the text, independent of white space, comments, case of keywords and redundant parentheses; no text makes parsing panic.',
 ['inputs'],'all texts','The tests parse a few dozen texts.',
 ['lang.go','ast.go','parser/cypher_parser.go'],[('translation','ast.go')],['parsed query or error'])
prop('C22','Escaping and conversion of values',
 'Escaped string, label and property literals read back as the original text, conversion of native values and rendering as text keep every value, and equality of converted values is that of the originals.',
 ['inputs'],'all strings and native values','The tests convert a few values.',
 ['literal.go','value.go'],[('escaping','literal.go: EscapeStringLiteral'),('conversion','value.go: ValueOf')],['values read back'])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
