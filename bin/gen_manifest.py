#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed). Run by hand after editing."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state))

STATELESS = "stateless model checking of the real command: exhaustive enumeration of every choice sequence (inputs x environment answers) within stated bounds, executed on the implementation against simulated servers"

prop("C01", "Examination leaves the database schema as it found it",
 "Examining indexes (--with-examine) on MySQL, PostgreSQL or Hasura leaves the database with exactly the indexes it had before, whatever indexes are examined and whichever requests the server refuses on the way, except for a temporary index whose removal the server itself refused. At most one temporary index exists at a time, only indexes created by this run are dropped, and a refused request makes the command fail.",
 ["inputs","fault_sequences"], "for every list of examined indexes (order, repetition, long names, unknown columns) and every pattern of refused requests",
 "The tests run one happy path per backend with a mock that answers a fixed script; they never refuse a request, examine two indexes or names that need truncation.",
 ["database/dservice/examiner.go","database/mysql/mservice/index_examiner.go","database/postgres/pservice/index_examiner.go","database/hasura/hservice/index_examiner.go","cmd/db/suggest"],
 [{"name":"drop after create, also when execution fails","where":"database/dservice/examiner.go Run"},{"name":"temporary index name","where":"database/dservice/examiner.go / dmodel.IndexTarget"}],
 STATELESS, "all option lists of length<=3 over 11 options x every pattern of <=2 refused requests, and every fault pattern for shorter lists, on the three real commands against a server that executes the DDL")

prop("C02", "Examination measures the given query with exactly the named index",
 "In an examination the original time is measured with no temporary index, and the time reported for each examined index is the time the given query itself (with its variables) took while exactly that index existed. Results are reported one per examined index, in the order given; index creation and removal time is not counted.",
 ["inputs","schedules"], "for every list of examined indexes and every pattern of query, DDL and metadata durations",
 "Tests run with a mock that answers instantly and only check that the time is 0.",
 ["database/dservice/examiner.go","database/dmodel/examination_result.go","database/dmodel/examination_index_result.go"],
 [{"name":"time measured around Execute only","where":"index_examiner.go Execute"},{"name":"result list","where":"database/dservice/examiner.go"}],
 STATELESS + "; durations are controlled by a virtual clock", "all option lists of length<=4 over 10 options x 3 duration patterns x 3 backends under the runtime's virtual clock")

prop("C03", "Only validated identifiers are spliced into SQL",
 "Whatever table and column names come from the -i option, the analysed query or the database's catalog, every statement text GravityR sends that contains them outside of bind parameters contains only safe identifiers (letters, digits, underscore, bounded length), so no input can smuggle further SQL into DDL or metadata queries. An index that cannot be written safely is rejected or skipped instead.",
 ["inputs"], "for every name built from an alphabet containing quotes, separators, spaces, comments, control and non-ASCII characters",
 "Tests check a few good and bad names on the parsing function; whether the whole command lets one through is not exercised.",
 ["database/dmodel/index_target.go","database/dmodel/index_column.go","infra/hasura/client.go","database/hasura/hservice"],
 [{"name":"IsSafe / NewIndexColumn","where":"database/dmodel"},{"name":"escaping in run_sql","where":"infra/hasura"}],
 STATELESS, "all names of length<=4 (quick) over a hostile alphabet in every place a name can come from")

prop("C04", "The index option is accepted iff well formed and read exactly",
 "An index option is accepted exactly when it has the form table:column[+column...] with names of letters, digits and underscores (bounded length), and then denotes exactly that table and those columns in that order; anything else makes the command fail with an error, before any index is created. The same holds for each of several options.",
 ["inputs"], "for every string over the option alphabet up to a length, and every composition of longer pieces",
 "Tests sample about ten strings.",
 ["database/dmodel/index_target.go","database/dmodel/index_column.go"],
 [{"name":"NewIndexTargetFromText","where":"database/dmodel/index_target.go"}],
 STATELESS, "all strings of length<=6 over an 8 character alphabet plus all piece compositions, checked on the parser and through the three commands")

prop("C05", "Only the user's SELECT is ever executed, and nothing is changed unasked",
 "Without --with-examine no index is created or dropped and the query is only explained; statements other than a single plain SELECT (data changes, DDL, SELECT INTO, several statements, unions, empty text) are refused with an error before anything that could execute them is sent to MySQL or PostgreSQL. Metadata requests to Hasura are marked read-only.",
 ["inputs","configurations"], "for every statement kind, spelling variant (case, comments, blanks, parentheses, trailing statements) and option combination",
 "Tests run SELECTs only.",
 ["cmd/db/suggest","database/mysql/mservice","database/postgres/pservice","infra/hasura/client.go"],
 [{"name":"validation before EXPLAIN ANALYZE","where":"cmd/db/suggest/*.go"}],
 STATELESS, "all combinations of statement kind x spelling x backend x options; monitors every request the simulated server receives")

prop("C06", "MySQL: suggestions come from exactly the columns the query uses",
 "For a MySQL SELECT over tables joined by ON, USING, NATURAL JOIN or comma, the suggested indexes are built from exactly the columns the query mentions: columns in WHERE and ON (also those compared by USING or NATURAL JOIN) count as condition columns, columns in the select list, GROUP BY, HAVING and ORDER BY as referenced columns (a condition wins when both), and `*` counts for nothing. Every expression form is searched, and every name - qualified, unqualified, aliased, quoted or differently cased - is attributed to the table it denotes (a name in ORDER BY, GROUP BY or HAVING may denote an output of the SELECT instead); the content of subqueries does not change the suggestions for the outer tables.",
 ["inputs","programs"], "for every query of a bounded grammar of expressions, clauses, FROM shapes and naming styles",
 "Tests list a few dozen fixed queries, mostly one clause at a time.",
 ["database/mysql/mservice/parser","database/dservice/dparser","infra/mysql"],
 [{"name":"scope collection","where":"database/mysql/mservice/parser/collect_stmt_scopes.go"},{"name":"column resolution","where":"database/dservice/dparser/build_table_fields.go"}],
 STATELESS + "; oracle: queries are generated together with their meaning, and an independent reference computes the suggestions", "77 expression templates (nested to depth 2) x clauses x columns, all role assignments, 25 FROM shapes x references x naming styles")

prop("C07", "PostgreSQL/Hasura: suggestions come from exactly the columns used",
 "For a PostgreSQL SELECT (given directly or reported by Hasura) the suggested indexes are built from exactly the columns of real tables the query uses, condition columns being those in WHERE and ON and referenced columns those elsewhere, across the whole query including derived tables, LATERAL and correlated subqueries. A column of a derived table stands for the columns it is computed from, an inner name hides an outer one (nearest query first), a name in ORDER BY or GROUP BY may denote an output of the SELECT, and each name is attributed to the table it denotes.",
 ["inputs","programs"], "for every query of a bounded grammar of expressions, clauses, FROM shapes, naming styles and subqueries nested up to three levels",
 "Tests list a few dozen fixed queries.",
 ["database/postgres/pservice","database/hasura/hservice","database/dservice/dparser","infra/postgres","infra/hasura"],
 [{"name":"scope collection","where":"database/postgres/pservice/parser/collect_stmt_scopes.go"},{"name":"column resolution","where":"database/dservice/dparser/build_table_fields.go"}],
 STATELESS + "; oracle: queries are generated together with their meaning, and an independent reference computes the suggestions", "79 expression templates (nested to depth 2) x clauses x columns, all role assignments, 27 FROM shapes, subquery grammar with derived/lateral/IN/EXISTS/scalar forms")

prop("C08", "Suggested indexes are exactly the efficient combinations, in order",
 "Given which columns of a table are condition columns and which are only referenced, the suggestions are exactly: every ordering of every non-empty set of condition columns, and every ordering of all condition columns followed by all referenced columns in alphabetical order; no suggestion is repeated and none consists of primary key columns only. Suggestions are listed by table, then number of columns, then column names.",
 ["inputs","configurations"], "for every assignment of roles to up to six columns over several tables and every primary key",
 "Tests use at most three columns and simple keys.",
 ["database/dservice/dparser/index_target_builder.go","database/dservice/dparser/index_target_table.go"],
 [{"name":"composition","where":"database/dservice/dparser/index_target_builder.go"},{"name":"SortIndexTargetTable","where":"database/dservice/dparser/index_target_table.go"}],
 STATELESS + "; oracle: independent reference enumeration", "all role assignments of <=5 columns (6 thorough) x all primary keys x 3 backends through the real commands")

prop("C09", "Indexes that already exist are never suggested, all others are",
 "A suggestion is dropped exactly when the same table already has an index on the same columns in the same order (letter case ignored); indexes on other tables, prefixes, extensions, reorderings or expressions never remove it. This holds for any number of tables and indexes reported by the database.",
 ["inputs","configurations"], "for every set of existing indexes over the candidate columns and tables",
 "Tests have one or two existing indexes.",
 ["database/dservice/existing_index_remover.go","database/dmodel/index_target.go","infra/mysql/index_info.go","infra/postgres/index_info.go","database/hasura/hservice/index_getter.go"],
 [{"name":"ExistingIndexRemover","where":"database/dservice/existing_index_remover.go"},{"name":"grouping of flat index rows","where":"infra/mysql/index_info.go"}],
 STATELESS + "; oracle: set difference with the independent reference", "all subsets of up to 3 existing indexes from a pool of 20+ (same/other table, prefix, reordered, cased, expression) x 3 backends")

prop("C10", "The same query always gets the same suggestions",
 "For a fixed query and database, suggestions (their content and their order) do not depend on chance: not on hash-map iteration order, nor on the order in which the database reports indexes and columns. Repeating the command gives the same report.",
 ["schedules","inputs"], "for every map iteration order the runtime may pick, at every iteration of a map during the analysis",
 "A test run sees one random iteration order per execution.",
 ["database/dservice/dparser","database/mysql/mservice","database/postgres/pservice","lib/set.go"],
 [{"name":"sorted output","where":"database/dservice/dparser/index_target_table.go"}],
 "stateless model checking with a controlled source of nondeterminism: a patched map iterator lets the explorer choose the start of every map iteration", "all iteration starts for every map iteration with deviation bound, over a family of queries")

prop("C11", "A query is analysed completely or refused with an error, never a crash",
 "Whatever text is given as the query, the suggest commands end with either a complete report or an error; they never panic or hang. Columns, tables and aliases that do not exist or are not in scope (also real names hidden by an alias), and statements that are not one plain SELECT (set operations, several statements, empty or malformed text), are refused with an error instead of being analysed in part.",
 ["inputs","programs"], "for every query built from a token grammar covering statement kinds, clauses and malformed combinations",
 "Tests use well formed queries only.",
 ["database/mysql/mservice","database/postgres/pservice","database/dservice/dparser","cmd/db/suggest"],
 [{"name":"unsupported errors","where":"lib/errors.go"}],
 STATELESS, "all token sequences up to 3 (4) tokens over a SQL vocabulary, all combinations of 40x32x40 query fragments, unknown names in every expression form and clause, out-of-scope and unsupported queries")

prop("C12", "MySQL plans are shown as the exact tree the server returned",
 "The plan shown in a MySQL report has one node per plan line, nested as the server indented it and in the server's order, each carrying the line's operation, text, table name, estimated and measured figures. Plan text whose indentation skips a level makes the command fail instead of a line being dropped or attached elsewhere.",
 ["inputs"], "for every tree shape up to a size and every form of plan line",
 "Tests use a handful of recorded plans.",
 ["database/mysql/mmodel","database/mysql/mservice/explainer.go","database/dservice/build_single_table_explain_results.go"],
 [{"name":"nesting","where":"database/mysql/mservice/explainer.go"},{"name":"line parser","where":"database/mysql/mmodel/explain_analyze_result_line.go"}],
 STATELESS + "; oracle: the tree the plan text was rendered from", "all ordered forests/trees up to 7 nodes x line forms")

prop("C13", "PostgreSQL/Hasura plans are shown as the exact tree the server returned",
 "The plan shown in a PostgreSQL or Hasura report has one node per plan node, nested as the server indented it and in the server's order, each carrying all of its lines (filters, conditions, subplans), its operation, table name, estimated and measured figures; the planning and execution summary follows, and is empty when the server sent none. No line is lost, duplicated or attached to another node.",
 ["inputs"], "for every tree shape up to a size, detail lines, subplan/CTE headings, figures, and with or without summary",
 "Tests use a handful of recorded plans.",
 ["database/postgres/pmodel","database/postgres/pservice/explain_analyze_tree_builder.go"],
 [{"name":"line grouping","where":"database/postgres/pservice/explain_analyze_tree_builder.go"},{"name":"figures","where":"database/postgres/pmodel/explain_analyze_result_node.go"}],
 STATELESS + "; oracle: the tree the plan text was rendered from", "all ordered trees up to 6 nodes x detail lines x summary forms")

prop("C14", "Reports embed any data intact and cannot be broken out of",
 "Any query, plan, variable or trace text - including markup, script terminators, quotes, backslashes, control and non-ASCII characters - appears in the HTML report's embedded data exactly as given, and never as markup or script of its own. The report is a complete page containing the client's script, or the command fails and says so.",
 ["inputs"], "for every text up to a length over an alphabet of dangerous fragments, in every field of every report kind",
 "Tests check that a plain query string occurs in the output.",
 ["html/html_builder.go","html/build_option.go"],
 [{"name":"HTML-safe JSON embedding","where":"html/html_builder.go"}],
 STATELESS + "; oracle: HTML tokenisation of the page and JSON decoding", "all texts of <=3 fragments over 32 dangerous fragments in 14 places of the 5 report kinds, through the real commands")

prop("C15", "Every Jaeger span appears exactly once, under its own parent",
 "From the spans of a trace, in whatever order and grouping they arrive, the span trees contain every span exactly once with its own name, times, service and attributes (of any kind, also empty): under the span it names as its parent, or as a root when it names none or the parent is missing. Siblings are ordered by start time.",
 ["inputs","schedules"], "for every forest of spans up to a size, every arrival order, grouping and missing parent",
 "Tests build a few fixed trees.",
 ["otel/jaeger/v1_converter.go","otel/omodel/span.go"],
 [{"name":"tree building","where":"otel/jaeger/v1_converter.go"},{"name":"SortChildren","where":"otel/omodel/span.go"}],
 STATELESS + "; oracle: the forest the spans were generated from", "all parent functions over <=5 spans x arrival orders x groupings")

prop("C16", "Compacted traces keep exactly service entries and final database calls",
 "A compacted trace keeps exactly its root, every span that enters another service than its parent's, and every database call that leads to nothing further (labelled with the database system and its service); each kept span hangs under its nearest kept ancestor, in the original order, with its times unchanged.",
 ["inputs"], "for every tree of spans up to a size and every assignment of services and database attributes",
 "Tests compact five small trees.",
 ["otel/omodel/trace_compacter.go","otel/omodel/trace_tree.go"],
 [{"name":"traceCompacter","where":"otel/omodel/trace_compacter.go"}],
 STATELESS + "; oracle: independent definition over the original tree", "all trees of <=6 spans x services x database flags")

prop("C17", "Slow and chatty traces are exactly the right ones",
 "The report's slow traces are the longest traces found (all of them, at most 100), longest first; the same-service traces are exactly those in which some service (or a database as used by one service) is entered more often than the threshold in the compacted trace, together with the true count. Nothing found means empty lists, not a failure.",
 ["inputs"], "for every multiset of trace durations and service access counts, below and above the limits",
 "Tests pick from three traces.",
 ["otel/jaeger/trace_picker.go","lib/heap.go","otel/omodel/same_resource_count_visitor.go"],
 [{"name":"LimitedHeap","where":"lib/heap.go"},{"name":"filter","where":"otel/jaeger/trace_picker.go"}],
 STATELESS + "; oracle: sort and count", "all duration sequences up to a length, limits around 100, all access-count patterns")

prop("C18", "The most time-consuming service is the one that really consumed most",
 "The service reported as consuming most time is one whose own time is maximal, where a span's own time is the part of its interval not covered by its direct children in the compacted trace - however children overlap, nest, exceed or precede the parent - and a service's time is the sum over its spans. Ties may be resolved either way.",
 ["inputs"], "for every trace with up to a few spans and every placement of intervals",
 "Tests compute five fixed cases.",
 ["otel/omodel/span.go","otel/omodel/compact_info_collect_visitor.go"],
 [{"name":"CalcConsumedTime","where":"otel/omodel/span.go"}],
 STATELESS + "; oracle: point-wise interval measure", "all interval placements on a grid for a parent with <=3 children and for two-level trees")

prop("C19", "Jaeger is asked for the whole period, without gaps, with the given filters",
 "The requests sent to Jaeger cover every moment from the start to the end of the asked period without gaps, each with the given service name, trace count and minimum duration, in consecutive windows of at most 30 minutes, and every trace of every answer is considered once, even when two windows return it. A request or stream that fails makes the command fail without a report.",
 ["inputs","fault_sequences"], "for every period, minimum duration, number of answers and failing request or stream position",
 "Tests use one window and no failure.",
 ["otel/jaeger/trace_fetcher.go","infra/jaeger/client.go","lib/time.go","cmd/app/dig/jaeger.go"],
 [{"name":"GenerateTimeRanges","where":"lib/time.go"},{"name":"stream reading","where":"infra/jaeger/client.go"}],
 STATELESS + " (a gRPC server in the same process)", "all periods over a grid of lengths and offsets x durations x failing positions")

prop("C20", "Performance Insights is asked for seven full days of every MySQL database",
 "For every MySQL instance reported by RDS (over all pages), the requests to Performance Insights cover the seven days from the given start (default: seven days ago) without gap or overlap, once per grouping (SQL and tokenized SQL); instances of other engines are not asked. A failing request or an invalid start makes the command fail without a report.",
 ["inputs","fault_sequences","configurations"], "for every set of instances, page split, start time and failing request",
 "The test uses a fixed response for one instance.",
 ["cmd/db/dig/performance_insights.go","infra/aws/performance_insights.go","infra/aws/rds.go"],
 [{"name":"half-day windows","where":"cmd/db/dig/performance_insights.go"},{"name":"paging and filters","where":"infra/aws/rds.go"}],
 STATELESS, "all instance lists up to 4 x page splits x starts, every failing request x 6 kinds, through the real command and SDK over a simulated HTTP transport")

prop("C21", "Reported database load adds up to what Performance Insights measured",
 "In a Performance Insights report every load Performance Insights returns for the seven days (over all pages) is counted exactly once, in its own hour (UTC), under its own database and SQL: the hourly sums add up to the measured values, the hourly maximum is the true maximum, and every hour of the period is present, in any time zone. SQLs with the same text or the same tokenized id are not mixed up with others.",
 ["inputs","configurations"], "for every placement of data points over databases, SQLs, hours and boundaries, and every time zone offset",
 "The tests convert two or three fixed points.",
 ["infra/aws/pi_sql_load_avg.go","html/viewmodel"],
 [{"name":"hour buckets","where":"infra/aws"}],
 STATELESS + "; oracle: direct summation", "all placements of <=2 (3) points over times around every boundary x databases x SQL identities x starts in several zones; dense weeks with paged answers")

prop("C22", "Hasura requests carry the right endpoint, secret and flags; failures show",
 "Every request to Hasura goes to the configured base URL's matching endpoint with the admin secret and the given query and variables; any answer that is not success - another status, errors in the body, undecodable or truncated content, a broken connection - makes the command fail. Numbers, nulls, nested values and any text in variables arrive unchanged.",
 ["inputs","fault_sequences"], "for every base URL form, variable value and failure kind at every request",
 "Tests use one URL and successful answers.",
 ["infra/hasura"],
 [{"name":"client","where":"infra/hasura/client.go"}],
 STATELESS, "10 base URL forms x 5 secrets, 19 JSON values nested and paired, every failing request x 22 kinds")

prop("C23", "A failing backend makes the command fail and leaves no report",
 "If any request to the database, Hasura, Jaeger or AWS fails, or its answer breaks off, the command reports an error and neither creates nor overwrites the report file. If nothing fails, the command succeeds and the file holds the complete report, replacing previous content entirely.",
 ["fault_sequences","crash_points"], "for every command and every position and kind of failure in its sequence of requests",
 "Tests never fail a request.",
 ["cmd/db","cmd/app","html/html_builder.go"],
 [{"name":"error propagation","where":"cmd/*"},{"name":"CreateHtml","where":"html/html_builder.go"}],
 STATELESS, "every single and double (thorough: up to four) failing request x kind for 3 suggest commands with/without examination, Jaeger and Performance Insights; 5 kinds of output failure")

CLIENT = "stateless model checking of the real command and the real client code: exhaustive enumeration of data and of the reader's clicks within stated bounds; the report the command wrote is opened by the client code bundled from its current sources"

prop("C24", "Commands shown in a report can be run as they are",
 "The command line a report shows for trying the suggested indexes, pasted into a POSIX shell, runs the tool with exactly the report's query, variables and examination and with exactly the checked indexes in the form the tool accepts; the same holds for the command shown for a SQL of Performance Insights and for the curl command shown for Hasura - whatever quotes, dollars, backslashes, newlines or spaces the texts contain. Checking and unchecking boxes in any order leads to the command of the boxes that are checked.",
 ["inputs","histories"], "for every text up to a length over shell-significant fragments and every sequence of clicks on the index boxes",
 "The client tests open each page with one fixed data set and look for headings; they are not even part of the Go tests.",
 ["client/src/components/IndexSuggestion.svelte","client/src/pages/suggest","client/src/pages/dig/performance_insights","client/src/models"],
 [{"name":"command rendering","where":"client/src/models/*IndexTarget.ts, ExaminationCommandOption.ts, pages/dig/performance_insights/util/CommandText.ts"}],
 CLIENT + "; the shown command is run by a real shell", "all texts of <=3 (4) of 21 shell-significant fragments on 3 backends, all click sequences on the boxes, texts of SQLs of Performance Insights in both tabs, curl commands")

prop("C25", "Commands do exactly what their options say",
 "Every option of a command, in any spelling and order, takes effect exactly as given and a missing one as its default: the query, variables, indexes, examination, output path, service, period, durations, counts and thresholds of the command line are those used in the requests and shown in the report. A missing required option, an unknown one or a malformed value makes the command fail before it asks any server, and without writing a report.",
 ["inputs","configurations"], "for every combination of options, spellings, orders and values up to a number of deviations from the plain call",
 "Tests call the runners directly and never go through the command line.",
 ["cmd","cmd/db/suggest","cmd/app/dig/jaeger.go","cmd/flag"],
 [{"name":"flag definitions","where":"cmd/**"},{"name":"prepare/run","where":"cmd/db/suggest, cmd/app/dig"}],
 STATELESS + " (the real command tree with its real drivers over the MySQL, PostgreSQL, HTTP and gRPC protocols)", "all combinations of <=3 (4) deviations among queries, spellings, orders, index lists, examination, variables, output paths, omitted/unknown options on 3 suggest commands; all option combinations of dig jaeger")

prop("C26", "Environment settings reach the database exactly as given",
 "Whatever the DB_* settings contain - spaces, quotes, backslashes, separators, nothing at all - the connection uses exactly that user, password, host, port and database and the extra parameters, with the documented defaults for unset ones; missing required settings are an error. The same holds for the Hasura and Jaeger settings.",
 ["configurations","inputs"], "for every value up to a length over a hostile alphabet in every setting and every set of unset settings",
 "Tests use plain alphanumeric values.",
 ["infra/mysql/config.go","infra/postgres/config.go","infra/hasura/config.go","lib/env.go"],
 [{"name":"connection strings","where":"infra/*/config.go"}],
 STATELESS + " (the real command with its real drivers; simulated servers speak the MySQL, PostgreSQL, HTTP and gRPC protocols and record the login)", "all values of <=2 (3) characters over 20 hostile ones and <=3 (4) over 12 per setting, all pairs of settings, all subsets of unset and empty settings, parameter texts")

prop("C27", "The Performance Insights page ranks and plots the measured loads",
 "On the page of a Performance Insights report the ranking shows the (up to 20) statements with the highest total load of the checked databases, heaviest first, and the timeline shows every hour of the period with exactly the statements whose load in that hour was at least 0.5 %; tooltips show the database, load, time and text of the very bar. Clicking a bar of a tokenized SQL lists the (up to 10) heaviest measured hours of exactly that statement, heaviest first. Statements with the same text but different ids, in different databases, and with any text (markup, names of built-in properties) are not mixed up.",
 ["inputs","histories"], "for every set of loads up to a size, every choice of databases by clicks and every bar",
 "The client tests open each page with one fixed data set and look for headings; they are not even part of the Go tests.",
 ["client/src/pages/dig/performance_insights","client/src/models/DbLoad.ts","client/src/models/TimeDbLoad.ts"],
 [{"name":"ranking, timeline","where":"client/src/pages/dig/performance_insights/*.svelte"}],
 CLIENT, "every set of <=2 (and 3 with fewer hours) loads among 2 databases x 5 statements x 3 (4) hours, load values around the threshold, 19..23 statements, 9..12 measurements, every sequence of <=2 clicks, every bar hovered over and clicked")

prop("C28", "The suggestion page shows plan, timeline and examination faithfully",
 "The page of a suggestion report shows the query and its variables as they were given and every line of the plan in its order; the timeline has one bar per step, in the same order, labelled with the step, which spans from the end of its inputs to its own end (MySQL: time per loop times loops), its tooltip shows the figures of that step and pointing at it highlights that step's line. The examination table lists every examined index once with its time, the reduction in percent compared with the original and the statement which creates exactly that index, fastest first, besides the original time.",
 ["inputs"], "for every plan tree up to a size, every assignment of figures and texts, every list of examined indexes with every duration",
 "The client tests open each page with one fixed data set and look for headings; they are not even part of the Go tests.",
 ["client/src/pages/suggest","client/src/components","client/src/models/explain_data","client/src/models/ExaminationResult.ts"],
 [{"name":"timeline","where":"client/src/pages/suggest/*/Explain*Chart.svelte"},{"name":"examination","where":"client/src/components/ExaminationResultTable.svelte"}],
 CLIENT, "every plan tree of <=4 (5) steps x figures x texts on three backends with every bar labelled and hovered over; every list of <=2 (3) of 6 examined indexes x 4 durations x 3 originals; query/variable texts")

prop("C29", "The Jaeger page lists, links and draws the traces faithfully",
 "The page of a Jaeger report lists every reported trace once in each table it belongs to, slowest first, with its duration, repetitions and service, a link to that trace below the given address of the Jaeger UI (its path included), and a diagram that shows every call of that trace, caller to callee in order, whatever diagrams were opened before. A run of more than four consecutive calls of the same service, which call nothing themselves, is drawn as three calls and the number of the remaining ones.",
 ["inputs","histories"], "for every span tree up to a size, every run of repeated calls, every order of durations and every sequence of opened diagrams",
 "The client tests open each page with one fixed data set and look for headings; they are not even part of the Go tests.",
 ["client/src/pages/dig/jaeger","client/src/models/trace_diagram","client/src/Mermaid.svelte"],
 [{"name":"diagram","where":"client/src/models/trace_diagram"},{"name":"tables","where":"client/src/pages/dig/jaeger/TracesTable.svelte"}],
 CLIENT, "every tree of <=5 (6) spans over 3 services, every run of <=7 (9) calls among others, 0..3 traces in every order of durations, 5 addresses, sequences of <=2 (3) opened diagrams")

PROCESS = "stateless model checking of the finished program: exhaustive enumeration of calls x settings x faults within stated bounds, each run as a process of its own (main function included) against simulated servers over the real protocols"

prop("C30", "What a command tells about its own run is true",
 "A command ends with status 0 exactly when it did all that was asked - whatever request fails, whatever setting or option is missing or malformed, wherever the report cannot be written - and else ends with another status, tells the cause (the server's message, the option or setting at fault) on standard error and announces no report; it never crashes. On success it announces the report exactly once if one was asked for, with the absolute path where the complete report really is, however the path was given; with -v it lists the very candidates of the report in order and the examined times of the report, fastest first per table, and without -v it does not.",
 ["fault_sequences","configurations","inputs"], "for every failing request of every command, every way of failing, every wrong call and every form of the output path",
 "Tests call the runners inside the test process and never see exit status, standard error, the main function or the announced path.",
 ["main.go","cmd/root.go","cmd/util/log.go","cmd/db","cmd/app","database/dservice/examiner.go"],
 [{"name":"exit status and error","where":"cmd/root.go Execute, cmd/util/log.go LogError"},{"name":"announcement","where":"cmd/util/log.go LogResultOutputPath"},{"name":"listing","where":"cmd/util/log.go LogNewIndexTargets, database/dservice/examiner.go"}],
 PROCESS, "each request of each of the five commands (and the examining modes) fails in each way; 22 wrong calls; 18 places for the report x 3 spellings x verbose x previous file")

prop("C31", "Passwords and secrets are shown nowhere and sent only to their server",
 "The values of DB_PASSWORD, HASURA_ADMIN_SECRET and AWS_SECRET_ACCESS_KEY never show - plain, escaped, encoded or in part - in a report, on standard output or standard error, with or without -v, whether the command succeeds or fails in whatever way. The admin secret of Hasura goes to the host of HASURA_URL only, even if that one redirects to another host; the secret key of AWS is never sent.",
 ["fault_sequences","configurations","inputs"], "for every trouble of settings, connection and requests, every shape of secret and every redirect",
 "Tests never run a command with a real connection and look at what it prints; redirects are not tested at all.",
 ["infra/mysql","infra/postgres","infra/hasura","infra/aws","lib/http_transport.go","cmd/util/log.go"],
 [{"name":"connection errors","where":"infra/*/config.go, infra/*/db.go"},{"name":"requests","where":"infra/hasura/client.go, lib/http_transport.go"}],
 PROCESS, "49 troubles (settings, connections, each of the first 8 requests in each way) x 3 secrets x verbose x examination on four commands; every two setting troubles; 5 redirecting statuses x 6 requests x 4 destinations")

READY = open(os.path.join(here, "bin", "ready.txt")).read().split()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in READY: continue
        a = {"files": p["files"], "mechanism": p["mech"]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] in READY],
     "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
