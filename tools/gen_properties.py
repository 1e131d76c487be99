#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit the texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Tokens tile the input losslessly with exact byte and character offsets",
"For every input string (valid UTF-8 or not, of any length) and every mode, system dictionary and user dictionary, analysis terminates without panicking and the surfaces of the tokens other than BOS/EOS, concatenated, are exactly the input bytes. Every such token's surface is non-empty and is the slice of the input that starts at the token's byte position; its start/end are the character (rune) offsets of that slice, and consecutive tokens are adjacent. BOS comes first at offset 0, EOS comes last at the end of the input, and token indexes count 0,1,2,... in output order.",
["inputs","configurations"],"all byte strings x {Normal, Search, Extended} x any dictionary / user dictionary / BOS-EOS option",
"The tests check a handful of sentences (and most of them need a dictionary file that is not in the tree); they never reach invalid bytes in all modes, U+FFFD, unknown-word runs past the length cap, or inputs whose accumulated cost saturates.",
["tokenizer/tokenizer.go","tokenizer/lattice/lattice.go","tokenizer/lattice/node.go"],
[("lattice construction covers every position","tokenizer/lattice/lattice.go:Build"),("back-tracking from EOS to BOS","tokenizer/lattice/lattice.go:Backward"),("token offsets","tokenizer/tokenizer.go:Analyze")],
observe=["tokenizer.Tokenizer.Analyze","tokenizer.Tokenizer.Tokenize"])

p("C02","The analysis returned is a minimum-cost path",
"In Normal and Search mode, the token sequence returned for an input has the lowest total cost of any way of covering the input with the available candidate words, where total cost is the sum of word costs and the connection costs between neighbours (0 next to a user-dictionary word), as long as the total fits in 32 bits. Search mode adds, per word, 3000 for each character beyond 2 when the word is all ideographs, otherwise 1700 for each character beyond 7; Normal mode adds nothing. The candidates at a character are the user-dictionary entries that are prefixes of the rest of the input or, if there are none, the system-dictionary words that are prefixes of it plus, if there are none or its category always invokes it, the unknown words: the one character or, when the category groups, the run of characters of that category (at most 1024) and that run less its last character (unless that is U+FFFD or an invalid byte).",
["inputs","configurations"],"all inputs x all dictionaries (weights, context ids, connection matrices) x {Normal, Search}",
"The tests compare a few sentences with recorded segmentations; they cannot show that no cheaper path exists for other inputs, ties, homographs, extreme weights, or either penalty boundary.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go"],
[("forward pass of the Viterbi search","tokenizer/lattice/lattice.go:Forward"),("search mode penalty","tokenizer/lattice/lattice.go:additionalCost, kanjiOnly"),("candidate generation","tokenizer/lattice/lattice.go:Build")],
observe=["tokenizer.Tokenizer.Analyze"])

p("C03","A token's class and id tell truthfully where the token came from",
"In Normal and Search mode a KNOWN token's id is an entry of the system dictionary spelled exactly like its surface, and a USER token's id is an entry of the user dictionary spelled exactly like its surface. An UNKNOWN token's id belongs to the unknown-word definition of the character category of its first character, all its characters are of that category, it is one character long unless the category groups characters, and it is never longer than 1024 characters. An UNKNOWN token starts only where no dictionary word matches or where its category always invokes unknown-word processing.",
["inputs","configurations"],"all inputs x all dictionaries x {Normal, Search}",
"The tests look up a few ids; a wrong id for a homograph, a category mix-up or an off-by-one in grouping shows only for particular characters and lengths.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go"],
[("candidate generation from user, known and unknown dictionaries","tokenizer/lattice/lattice.go:Build"),("node construction","tokenizer/lattice/lattice.go:addNode")],
observe=["tokenizer.Token.ID","tokenizer.Token.Class","tokenizer.Token.Surface"])

p("C04","User dictionary entries take precedence over system words",
"In Normal and Search mode, wherever a user-dictionary entry is a prefix of the rest of the input, no KNOWN or UNKNOWN token starts at that character: a token that starts there is a USER token for one of the user entries matching there, whatever the system dictionary's costs. An input that is exactly a user entry with no shorter user entry as a prefix is analysed as that single USER token in every mode, carrying that entry's part of speech, custom segmentation and readings. With a user dictionary none of whose entries occur in the input, the analysis is the same as without one.",
["inputs","configurations"],"all inputs x all user dictionaries (overlapping, nested entries) x all modes x any system dictionary",
"Tests use one user dictionary and one word; overlap between entries, with system words and with unknown runs is unbounded.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go","tokenizer/tokenizer_option.go","tokenizer/token.go"],
[("user dictionary lookup before the system dictionary","tokenizer/lattice/lattice.go:Build"),("user contents","tokenizer/token.go:UserExtra")],
observe=["tokenizer.Tokenizer.Analyze","tokenizer.Token.UserExtra"])

p("C05","Extended mode is Search mode with unknown words split into characters",
"For every input, Extended mode returns exactly the Search mode token sequence in which each UNKNOWN token is replaced by one token per character of it. Each replacement token is of class DUMMY, keeps the unknown word's id, has that one character (its original bytes) as surface, and the exact byte and character offsets of that character. All other tokens are identical, and indexes are consecutive.",
["inputs","configurations"],"all inputs x all dictionaries x user dictionaries",
"Tests compare one or two Extended outputs; they do not relate the two modes to each other, and do not cover multi-byte, invalid or long unknown words.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go"],
[("unigram expansion while back-tracking","tokenizer/lattice/lattice.go:Backward"),("mode mapping","tokenizer/tokenizer.go:Analyze")],
observe=["tokenizer.Tokenizer.Analyze"])

p("C06","An analysis never depends on, or disturbs, any other analysis",
"The result of an analysis call (tokens, surfaces list or graph) is a function of its arguments and the tokenizer's configuration only: it is the same in a fresh process and after any sequence of other calls, with the same or other tokenizers, dictionaries, options, modes and inputs. Recycled memory never leaks words, offsets, costs or user-dictionary settings from one call into another. Tokens already returned never change when later calls are made.",
["histories","inputs"],"all finite sequences of calls on any set of tokenizers, and all answers the recycling pools may give",
"Each test makes one or two calls; leftover state in recycled lattices and nodes shows only after particular sequences (long then short, with then without user dictionary) and particular pool answers.",
["tokenizer/lattice/lattice.go","tokenizer/lattice/node.go","tokenizer/lattice/mem/pool.go","tokenizer/tokenizer.go"],
[("lattice and node recycling","tokenizer/lattice/lattice.go:New, Free, addNode"),("pools","tokenizer/lattice/mem/pool.go")],
state=[dict(name="latticePool",meaning="recycled lattices",where="tokenizer/lattice/lattice.go"),dict(name="nodePool",meaning="recycled nodes",where="tokenizer/lattice/node.go")],
observe=["tokenizer.Tokenizer.Analyze","tokenizer.Tokenizer.AnalyzeGraph","tokenizer.Tokenizer.Wakati"])

p("C07","Tokenizers are safe for concurrent use",
"Any number of goroutines may analyse text at the same time, sharing one tokenizer or using several over the same dictionaries, and read the tokens they got: under every interleaving each call returns exactly what it would return alone. No schedule leads to a data race, a deadlock or a panic. An object handed out by a recycling pool belongs to one user at a time until it is given back.",
["schedules"],"all interleavings of concurrent Analyze/Wakati/AnalyzeGraph calls and token reads",
"No test runs two analyses concurrently; sharing errors need a particular interleaving to show.",
["tokenizer/lattice/lattice.go","tokenizer/lattice/node.go","tokenizer/lattice/mem/pool.go","tokenizer/tokenizer.go","tokenizer/token.go"],
[("per-call lattice taken from a concurrent pool","tokenizer/lattice/lattice.go:New, Free"),("pool wrapper","tokenizer/lattice/mem/pool.go")],
state=[dict(name="latticePool",meaning="recycled lattices",where="tokenizer/lattice/lattice.go"),dict(name="nodePool",meaning="recycled nodes",where="tokenizer/lattice/node.go")],
observe=["tokenizer.Tokenizer.Analyze"],hook=None)

p("C08","Token content accessors agree with each other and with the dictionary",
"For every entry of a dictionary, a token of that entry reports as features its part-of-speech columns followed by its other contents, and indexed access returns exactly the i-th of those features for 0<=i<n and reports absence for every other i. Part of speech, inflection, base form, reading and pronunciation are the features at the positions the dictionary declares for them (absent where it declares none), also with a dictionary loaded without contents; a user entry's features are part of speech, tokens and readings joined by '/'. The aggregate token data (also as JSON) repeats exactly these values, and modifying what an accessor returned changes neither the dictionary nor later answers. Two tokens, also of different dictionaries, are equal exactly when id, class and surface are, and compare equal in features or part of speech exactly when those lists are equal.",
["inputs","configurations"],"all dictionary entries (known, unknown, user) x all indexes x full and contents-less dictionaries",
"Tests look at a handful of words of one dictionary and few indexes.",
["tokenizer/token.go"],
[("feature assembly","tokenizer/token.go:Features, FeatureAt, POS, UserExtra, pickupFromFeatures"),("token data","tokenizer/token.go:NewTokenData")],
observe=["tokenizer.Token.Features","tokenizer.Token.FeatureAt","tokenizer.NewTokenData"])

p("C09","A feature or part-of-speech filter matches exactly what its patterns say",
"A filter built from any list of non-empty patterns, given in any order and with duplicates, matches a feature vector if and only if at least one pattern is no longer than the vector and equals it position by position over the pattern's length, the wildcard being equal to everything. A filter without patterns matches nothing. A word filter matches exactly the words it was built from.",
["inputs","configurations"],"all lists of patterns (any order, wildcards anywhere, nested prefixes) x all feature vectors",
"Tests use one list of six patterns; the compact representation merges patterns depending on insertion order, which a fixed list cannot settle.",
["filter/feature.go","filter/pos.go","filter/word.go"],
[("pattern trie insertion and pruning","filter/feature.go:add"),("trie matching","filter/feature.go:Match"),("word set","filter/word.go:Match")],
observe=["filter.FeaturesFilter.Match","filter.POSFilter.Match","filter.WordFilter.Match"])

p("C10","Keep and Drop split a token list exactly, in order; the Japanese filter too",
"For every token list and every filter, Keep leaves exactly the tokens that match and Drop exactly those that do not, each in the original order and unmodified, so together they partition the list; a nil list is left alone. The Japanese filter drops exactly the tokens whose part of speech is a stop tag or whose surface is a stop word (by default the bundled lists, or those given as options). Its word sequence contains, for exactly the tokens that survive and in order, the surface, or the base form when the token's part of speech is one of the base-form parts of speech and it has one.",
["inputs","configurations"],"all token lists x all match patterns x all filter options",
"Tests filter one sentence; in-place compaction errors depend on the pattern of matches.",
["filter/filter.go","filter/pos.go","filter/word.go","filter/ja/filter.go","filter/ja/loader.go"],
[("in-place compaction","filter/filter.go:applyFilter; filter/pos.go:apply; filter/word.go:apply"),("stop lists","filter/ja/filter.go, filter/ja/loader.go")],
observe=["filter.Keep","filter.Drop","filter.POSFilter","filter.WordFilter","filter/ja.Filter"])

p("C11","Sentence splitting loses nothing and cuts exactly where the rules say",
"For every text and splitter setting, the sentences concatenated are the text (with white space removed when white space is skipped), none is empty, and no character is cut. A sentence ends after a delimiter character together with the delimiters, follower characters (and skipped white space) right after it (a skipped white-space delimiter ends it at once), at a double line feed when that is enabled, when the maximum number of characters is reached (again followed by trailing delimiters and followers), or at the end of the text. It ends nowhere else.",
["inputs","configurations"],"all texts x all delimiter / follower sets, white-space and line-feed settings and length limits",
"Tests split about thirty fixed strings; the splitter's in-place white-space elimination and its line-feed state interact with every character order.",
["filter/sentence_splitter.go","cmd/sentence/cmd.go"],
[("split function","filter/sentence_splitter.go:ScanSentences")],
observe=["filter.ScanSentences","filter.SentenceSplitter.ScanSentences"])

p("C12","Sentence boundaries do not depend on how the text arrives",
"The sequence of sentences obtained by scanning a reader is a function of the text alone: it is the same however the reader cuts the text into pieces (also inside a character, a double line feed or a run of followers), whether end-of-file arrives with the last piece or after it, and whatever the scanner's buffer size as long as each sentence with its white space fits. A read error is reported to the caller after the sentences that were complete, never swallowed.",
["inputs","fault_sequences","histories"],"all texts x all ways of cutting them into reads (including empty reads and data delivered together with EOF) x a read error after any byte",
"Tests read short strings that arrive in one piece, so a sentence never straddles a buffer boundary.",
["filter/sentence_splitter.go","cmd/sentence/cmd.go","cmd/tokenize/cmd.go"],
[("requesting more data","filter/sentence_splitter.go:ScanSentences")],
observe=["bufio.Scanner over filter.ScanSentences"])

p("C13","The HTTP tokenize endpoint answers every request faithfully, in JSON",
"Every request body gets a complete HTTP response whose body is one well-formed JSON object. If the first JSON value of the body is an object (or null) whose sentence and mode are strings, null or absent, the answer is 200, status true and exactly the library's tokens for that sentence in that mode, without BOS/EOS ('Search' and 'Extended' select those modes, anything else Normal; an empty sentence gives an empty list); otherwise it is 400 with status false and an error text. No request, malformed, truncated, aborted or concurrent, affects the answer to another.",
["inputs","histories","fault_sequences"],"all request bodies, methods, sequences of and concurrent requests, and connections dropped at any byte",
"The tests send four well-formed requests to the handler in-process; no malformed body is ever sent.",
["cmd/server/api.go","cmd/server/cmd.go"],
[("request decoding and response encoding","cmd/server/api.go:ServeHTTP")],
observe=["POST /tokenize"])

p("C14","The lattice graph is valid DOT and shows the lattice and the best path",
"For every input, mode and user dictionary the exported graph is syntactically valid DOT: one node statement per drawn candidate word labelled with its surface (a NUL shown as U+2400; BOS/EOS for the ends), part of speech and word cost, and one edge per pair of drawn words that can follow one another, labelled with their connection cost, every edge joining declared nodes. In Normal and Search mode it draws all user and known candidates and, of the unknown candidates, exactly those on the best path; the highlighted nodes and edges form one path from BOS to EOS that spells the returned tokens; in Extended mode it draws all user and known candidates and highlights exactly those of them that are returned. Exporting never fails or alters the analysis, even if the writer fails.",
["inputs","configurations","fault_sequences"],"all inputs (quotes, backslashes, line feeds included) x modes x user dictionaries x writer failures at any point",
"Tests only check that some output is produced.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go","cmd/lattice/cmd.go"],
[("graph export","tokenizer/lattice/lattice.go:Dot, posFeature")],
observe=["tokenizer.Tokenizer.AnalyzeGraph","kagome lattice"])

p("C15","The demo page always answers, whatever graphviz does, and never injects input",
"Every request to the demo page gets a complete HTML response: when the graphviz process succeeds it contains the drawing and the token table, and when it cannot be started, exits early after reading any part of its input, fails, or does not finish in time, the page reports an error instead; no handler hangs and later requests are unaffected. Text supplied by the client (sentence, mode) appears in the page only HTML-escaped. The token table lists exactly the tokens of the analysis without BOS/EOS.",
["fault_sequences","inputs","histories"],"every point at which the graphviz process may stop, every exit status, and all sentences including markup characters",
"Tests run graphviz only in its success case, and only if it is installed.",
["cmd/server/demo.go","cmd/server/asset/graph.html","cmd/server/asset/demo.html"],
[("graphviz pipeline","cmd/server/demo.go:analyzeGraph"),("templates","cmd/server/demo.go:ServeHTTP")],
observe=["GET /?s=...&r=...&lattice=..."])

p("C16","Command line output is the library's analysis of every input line, complete",
"The tokenize command prints, for every line of its input (every sentence with -split), in order, one record per token of the library's analysis in the selected mode and dictionaries without BOS/EOS: in text form surface and comma-joined features ended by a line EOS, in JSON form one valid JSON array. The sentence command prints every sentence on its own line; the lattice command writes the library's graph of its arguments joined by spaces (to the -output file, replacing what it held, if given), and with -v the text records of the analysis to standard error. If a command reports success, its whole input was processed; unreadable, missing or over-long input is reported as an error, after the output for what came before.",
["inputs","configurations","fault_sequences"],"all input files x option combinations x read failures and line lengths",
"Tests run three short inputs with the default options, and need a dictionary file that is absent.",
["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","kagome.go"],
[("line loop and printers","cmd/tokenize/cmd.go:command, printTokens, printTokensJSON"),("sentence loop","cmd/sentence/cmd.go:command")],
observe=["kagome tokenize","kagome sentence"])

p("C17","All ways of asking for an analysis agree",
"For every input and tokenizer, Tokenize equals Analyze in Normal mode, the word list equals the surfaces of its tokens without BOS/EOS, and the graph call returns the same tokens (every field) as the plain call in the same mode. Omitting BOS/EOS removes exactly those two tokens and renumbers the rest. A dictionary loaded without contents gives the same segmentation, ids and parts of speech as the full one, and a mode that is not one of the three behaves as Normal. Options act whatever their order and number (of several user dictionaries the last counts), each tokenizer keeps its own, and a missing dictionary is an error.",
["inputs","configurations"],"all inputs x modes x options x full / contents-less dictionary",
"Tests check each entry point separately on its own example.",
["tokenizer/tokenizer.go","tokenizer/tokenizer_option.go"],
[("entry points","tokenizer/tokenizer.go:Tokenize, Analyze, Wakati, Dot, AnalyzeGraph"),("options","tokenizer/tokenizer_option.go")],
observe=["tokenizer.Tokenizer"])

p("C18","Commands accept exactly the valid options and say so in the exit status",
"For every argument list built from the documented options, the option check and the run of each command accept it exactly when every flag exists, every enumerated value is one of the documented ones and positional arguments are present only where the command takes them; otherwise they return an error and produce no analysis output. The program runs the named command, or tokenize when the first argument names none, and exits 0 exactly when the command succeeded. A user dictionary or input file that cannot be used is an error, not ignored.",
["configurations"],"all argument lists over the documented flags, values and positional arguments up to a bounded length, for every command",
"Tests try about five argument lists per command.",
["kagome.go","cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go","cmd/server/cmd.go"],
[("option parsing","cmd/*/cmd.go:parse, OptionCheck, Run"),("dispatch","kagome.go:main")],
observe=["exit status","OptionCheck","Run"])

p("C19","The server starts, reports failure to start, and stops on request",
"Running the server returns an error if the dictionary, user dictionary or listen address cannot be used, and otherwise serves until its context is cancelled or the process gets SIGHUP, SIGINT or SIGTERM. Then it returns without error, whenever the cancellation comes (before, during or after start-up, idle or with requests in flight), and by the time it has returned it no longer accepts connections on its address, so the server can be started again on it. Nothing of it is left behind: its goroutines end and the signals have their usual effect again.",
["schedules","fault_sequences","histories"],"all orders of start, bind failure, requests, cancellation and signals",
"Tests cancel one idle server and never look at the listener afterwards.",
["cmd/server/cmd.go"],
[("serve / cancel select","cmd/server/cmd.go:command, Run")],
observe=["server.Run","TCP connect"])

p("C20","Command output arrives line by line, and output that is lost is reported",
"The tokenize command (without -split) writes all records of an input line before it waits for more input, so it can be used interactively and in pipelines. If the output of tokenize, sentence or lattice (standard output, or the lattice command's -output file) refuses data at any point, the command returns an error and the program does not exit with status 0; what was written until then is the beginning of the complete output. Success is never reported for output that was lost.",
["fault_sequences","schedules","inputs"],"all positions and write calls at which an output can fail x inputs x options, and all ways of sending lines one at a time",
"Tests write to a buffer that takes everything and give the whole input at once.",
["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go","kagome.go"],
[("printers","cmd/tokenize/cmd.go:command, printTokens, printTokensJSON"),("sentence loop","cmd/sentence/cmd.go:command"),("graph output","cmd/lattice/cmd.go:command")],
observe=["kagome tokenize","kagome sentence","kagome lattice","exit status"])

p("C21","The demo page's script shows the analysis of what its form holds",
"The demo page, opened with a sentence and mode, holds them in its form. Whenever the text or the mode in the form is changed, the page's script asks the server for the analysis; once the answers have arrived, in whatever order, the table shows exactly the tokens of the analysis of the form's current text in its current mode: surface, part of speech, base form, reading and pronunciation ('*' where there is none), as text and never as markup. At every moment the table is the analysis of something the form has held; an answer that fails to arrive or is not JSON changes nothing.",
["schedules","inputs","fault_sequences"],"all sequences of changes x all orders in which the answers arrive x failing answers, and all texts up to a bound",
"No test runs the script; the orders in which answers arrive are up to the network.",
["cmd/server/asset/demo.html","cmd/server/demo.go","cmd/server/api.go"],
[("client script","cmd/server/asset/demo.html:tokenize, cb"),("form","cmd/server/asset/demo.html, cmd/server/demo.go:ServeHTTP")],
observe=["GET /","POST /tokenize","document"])

p("C22","Builds for 32-bit processors give the same answers",
"The program is released for 32-bit processors as well. For every input, mode, system and user dictionary, token filter, sentence splitter setting, HTTP request and command line, the library, the server and the commands built for a 32-bit processor answer exactly what they answer when built for a 64-bit one: the same tokens, offsets, costs on the graph, filter decisions, sentences, responses, output and exit status. No sum, size or limit overflows, nothing panics and nothing needs an alignment that only 64-bit processors guarantee.",
["inputs","configurations"],"all inputs, dictionaries, settings, requests and command lines of bounded spaces x processor word size",
"The tests run on the machine they are built for, which is a 64-bit one.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go","tokenizer/token.go","filter/sentence_splitter.go","filter/feature.go","cmd/server/api.go","cmd/tokenize/cmd.go","cmd/lattice/cmd.go",".goreleaser.yml"],
[("costs","tokenizer/lattice/lattice.go:Forward"),("releases",".goreleaser.yml:builds.goarch")],
observe=["tokenizer.Tokenizer","lattice graph","filter.SentenceSplitter","filter.FeaturesFilter","POST /tokenize","kagome"])

p("C23","Filters and sentence splitters can be shared and used again and again",
"A filter (for features, parts of speech, words, or the Japanese one) or a sentence splitter, the package's default one included, may once it is made be used any number of times, on any inputs, by any number of goroutines at the same time and by any number of scanners in turns: every use gives exactly what it would give alone on a fresh filter or splitter, under every interleaving and after every history of other uses. No schedule leads to a data race, a deadlock or a panic. Making a filter changes nothing for the filters already made, and a filter keeps its patterns and words whatever the caller does with the lists it was made from.",
["schedules","histories","inputs"],"all interleavings of uses of shared filters and splitters up to a preemption bound, and all sequences of uses up to a depth",
"No test uses a filter or splitter from two goroutines, or two scanners in turns, and each test makes the filters it uses.",
["filter/feature.go","filter/pos.go","filter/word.go","filter/filter.go","filter/sentence_splitter.go","filter/ja/filter.go","filter/ja/loader.go"],
[("shared splitter","filter/sentence_splitter.go:defaultSplitter, ScanSentences"),("filters","filter/feature.go:Match, filter/pos.go:apply, filter/word.go:apply, filter/ja/filter.go:Yield, Drop"),("bundled lists","filter/ja/filter.go:newDefaultLuceneFilter")],
observe=["filter.FeaturesFilter","filter.POSFilter","filter.WordFilter","filter.SentenceSplitter","filter.ScanSentences","ja.Filter"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
