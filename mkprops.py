#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=list(observe),hook_needed=None)))
W='pkg/world/world.go';T='pkg/world/tree.go';I='pkg/world/item.go';R='pkg/world/rel.go';C='pkg/app/command.go';A='pkg/app/main.go'
G='pkg/grammar/grammar.peg';GG='pkg/grammar/grammar.peg.go';GM='pkg/grammar/main.go';E='pkg/errors/main.go';S='pkg/persistence/main.go'
p('C01','The shipped parser is the published grammar',
 "For every input text the shipped parser accepts exactly what the published grammar file (grammar.peg) accepts, recognises the same phrases in it, and runs exactly the actions that file attaches to them. A text that is rejected runs no action and reports an error.",
 ['inputs'],'every input text, every rule and action of the grammar','The tests parse about 40 strings; a drifted character class, keyword, alternative order or action shows only on inputs they do not contain.',
 [G,GG,GM],[('generated rule functions and action dispatch',GG+': Parser.Init, Parser.Execute'),('entry point',GM+': Parse')],observe=['grammar.Parse'])
p('C02','Every accepted command performs its own operation on its own operands',
 "Every command text the grammar accepts is carried out as the one operation that its verb and resource name, on exactly the items or relationship it names in the roles in which it names them, with the given parameters, limit and flags, and answers with that operation's result. Creating something that exists and deleting something absent change nothing; fetching, setting or clearing something absent is an error; no accepted command goes unhandled.",
 ['inputs','histories'],'every (resource, verb) pair and operand the grammar can produce, in every world state (target present / absent)','No test executes any command other than `world`; routing and operand roles of the other 22 commands are unexercised.',
 [C,A,G,'README.md'],[('verb dispatch',C+': InputToCommand, itemCommand, relCommand'),('command bodies',C+': *Command.Execute')],observe=['App.Exec','World operations invoked'])
p('C03','Undo restores what a command changed',
 "Undoing the command just executed puts back what it changed: a created item or relationship is removed; a deleted one is created again with its attributes (an item also with its place, its components and its relationships); changed or cleared attributes get all their former values; moved or freed items return to their former parent. Undoing a command that changed nothing changes nothing.",
 ['inputs','histories'],'every mutating command, in every world state it can meet','No test calls Undo; the restored values depend on the state the command met.',
 [C],[('captured former state',C+': fields old*, no*'),('inverse operation',C+': *Command.Undo')],observe=['World after Execute;Undo'])
p('C04','The undo/redo history is a faithful cursor',
 "The history lists exactly the commands executed and not undone, in order. Undo reverses the latest of them, redo re-executes the one most recently undone, executing a new command discards what was undone, and whether undo and redo are available is reported exactly; a failed undo or redo empties the history.",
 ['histories'],'every sequence of execute / undo / redo, including failures','No test undoes or redoes anything.',
 [A],[('command list and cursor',A+': app.exec, app.undo, app.redo, History, CanUndo, CanRedo')],
 state=[('commands/commandsIdx','executed commands and index of the last one in effect',A)],observe=['App.History','App.CanUndo','App.CanRedo'])
p('C05','Queries never change the world',
 "Fetching, listing, existence, containment and relationship queries, printing and comparing worlds, and undoing a query never change the world's items, relationships, nesting or header, in any state.",
 ['inputs','histories'],'every read operation and query command, in every world state','Tests compare a few results of reads, never the state before and after.',
 [W,T,I,R,C],[('read operations',W+': ItemFetch, ItemList, ItemParent, ItemComponents, RelFetch, RelTo, RelFrom, RelList, In, Parent, Components, String'),('query commands',C)],observe=['World state'])
p('C06','Containment is always a forest and its two views agree',
 "Every item has exactly one place: the parent reported for an item lists it among its components and no other parent does. Nesting or freeing an item moves it together with everything inside it, never puts an item inside itself or inside something it contains, and deleting an item hands its components to its parent.",
 ['inputs','histories'],'every sequence of create / nest / free / delete','Tests nest items at most once and never look at parents after a move, a delete or a cyclic request.',
 [T,W],[('tree mutation',T+': AddOrMove, Delete'),('tree construction',T+': convertNodeToTree, newTree'),('world operations',W+': Nest, Free, ItemCreate, ItemDelete')],
 state=[('tree.parent / tree.components','the two views of containment',T)],observe=['World.Parent','World.Components','World.In'])
p('C07','Items, places and relationships stay in step',
 "An item exists exactly when it has a place in the containment tree, and every relationship joins two existing items under the key of that pair. A relationship is created only between existing items; deleting an item removes every relationship from or to it and no other; deleting a relationship removes only that one.",
 ['inputs','histories'],'every sequence of world operations','Tests never delete anything.',
 [W,R],[('pairing of updates',W+': ItemCreate, ItemDelete, RelCreate, RelDelete, RelSet, Nest, Free')],
 state=[('Items/Rels/Tree','the three stores of a world',W)],observe=['World.ItemList','World.RelList','World.String'])
p('C08','Every view shows the current attributes',
 "After an item or relationship is created or its attributes change, every view of it - fetch, list, the components and parent of items, the endpoints of relationships and the printed world - shows the attributes it has now, and the operation itself answers with them.",
 ['inputs','histories'],'every item or relationship, every create and set','Tests set no attribute through a world operation and then look at another view.',
 [W,T],[('synchronisation of item copies',W+': ItemCreate, ItemSet, RelCreate, RelSet')],observe=['World.String','World.ItemComponents','World.RelList','WorldWithItem.Item'])
p('C09','Attributes of items and relationships survive printing and reading',
 "Each attribute of an item or relationship that has a value is printed under its own key whatever other attributes are set, the grammar accepts that key and value, and reading the text back puts the same value into the same attribute and touches no other. Identifiers and relationship endpoints survive likewise, in their roles.",
 ['inputs'],'every attribute of items and relationships, in every combination with the others','Tests round-trip two items and one relationship; most attribute combinations are never printed together.',
 [I,R,W,G,GG],[('printers',I+': Item.String; '+R+': Rel.String'),('readers',I+': ItemFromString, ItemParamsFromInput; '+R+': RelFromString, RelParamsFromInput; '+W+': itemSet, relSet'),('parameter rules',G+': ItemParam, RelParam')],observe=['Item.String','ItemFromString','Rel.String','RelFromString'])
p('C10','Loading a world text restores all of it or fails',
 "Loading the printed text of a world restores its version, identifier, name and description, every item with its attributes, every nesting and every relationship with its attributes. Text that is not a world, or any part of which cannot be restored, is rejected with an error instead of being loaded partially.",
 ['inputs'],'every world text, every part of it, every failure while restoring a part','Tests load three well-formed worlds without attributes.',
 [W,R,I],[('loader',W+': FromString'),('printer',W+': world.String')],observe=['world.FromString'])
p('C11','A saved world is found again and stays in its directory',
 "Saving a world writes one file that loading by the world's name, or by the name the listing shows for it, reads back; different names are different files and every saved world is listed. Whatever the name, saving and loading by name never touch anything outside the configured directory. (A path ending in .world that is given for loading, when no saved world has that name, is a path and not a name.)",
 ['inputs','configurations'],'every world name, every configured directory','One name (`test-world`) is tested.',
 [S],[('name to path mapping',S+': Save, Load, ListWorlds, SetSourcePath')],observe=['Persistence.Save','Persistence.Load','Persistence.ListWorlds','files written'])
p('C12','Saving is all or nothing',
 "If saving fails or the process dies at any point, the previously saved version of that world is still complete in its place. Saving reports success only after the complete new text has been written, flushed to disk and put in place, and reports every failure of these steps.",
 ['crash_points','fault_sequences'],'every crash point and every failing file operation during a save','The test saves once, without a previous version, failure or crash.',
 [S],[('write protocol',S+': Save')],observe=['Persistence.Save','file content after a crash'])
p('C13','A save that reports success can be loaded back unchanged',
 "Whenever saving reports success, the text written loads back as a world equal to the one saved. A world that cannot be represented faithfully is refused with an error before any saved file is touched.",
 ['inputs'],'every world that can be built through the API','Only one world, without attributes, is saved in tests.',
 [S,W],[('verification before writing',S+': Save')],observe=['Persistence.Save'])
p('C14','Relationship and containment queries are exact',
 "A strict query looks at the named items only; a non-strict one also at everything nested in them, to any depth. Queries 'to' an item select relationships by destination, 'from' by source and pair queries by both in that direction, and they return every relationship that matches and none that does not; containment queries answer by the same rule.",
 ['inputs','histories'],'every relationship, nesting and query item, strict or not','No test runs a relationship or containment query.',
 [W,T],[('queries',W+': RelFetch, RelTo, RelFrom, In'),('descendants',T+': GetDescendantIds, Has, Find')],observe=['World.RelTo','World.RelFrom','World.RelFetch','World.In'])
p('C15','The same world always gives the same text',
 "Printing, saving, listing or querying a world in a given state always yields the same text in the same order, however often and in whichever process it is done; nothing depends on map or set iteration order, time or chance.",
 ['inputs','schedules'],'every world state, every iteration order the runtime may choose','Tests compare lengths or sorted parts because order varies from run to run.',
 [W,T,C],[('listing and printing',W+': String, ItemList, RelList, RelFetch, RelTo, RelFrom, Components, ItemComponents; '+T+': String')],observe=['World.String','App.Exec'])
p('C16','List limits are exact',
 "Listing items or relationships with a positive limit returns that many of them, or all if there are fewer; without a limit, or with limit 0, it returns all of them, each once. The limit typed by the user is the one applied.",
 ['inputs'],'every limit, every number of items or relationships','No test lists with a limit.',
 [W,C,G],[('limit',W+': ItemList, RelList; '+C+': limitFromInput')],observe=['World.ItemList','World.RelList','`item list N`'])
p('C17','Every reply is a well-formed and truthful status',
 "Every text sent to the application gets a reply the grammar can parse. The reply carries status 200 exactly when the text was a valid command and it succeeded, preceded by the command's result; every rejected input and every failed command is answered with an error status whose code is not 200.",
 ['inputs'],'every input text, every outcome of the command','One command is executed in tests.',
 [A,E],[('reply construction',A+': app.Exec, okString; '+E+': TopolithError.String')],observe=['App.Exec'])
p('C18','No input crashes the application',
 "No text sent to the application or given to one of the readers, and no attribute or identifier given to a world operation, makes the program panic: every index is in range, nothing nil is used, and no failure is turned into a panic.",
 ['inputs'],'every input text and every argument of the public operations','Tests feed well-formed input only.',
 [A,C,W,T,I,R,E,S,GM],[('potential panic sites','all hand-written functions reachable from App.Exec, the readers and the World operations')],observe=['App.Exec','world.FromString','world.RelFromString'])
p('C19','Operation status is always that of the last operation',
 "After any operation of a world on items, relationships or nesting, the reported error, item and relationship are those of that operation and never left over from an earlier one: a success reports no error, and an operation that yields no item or relationship reports none.",
 ['histories'],'every operation after every history','No test reads the status after a second operation.',
 [W],[('status reset',W+': resetLatestTrackers and every operation')],state=[('latestItem/latestRel/latestErr','status of the last operation',W)],observe=['World.Err','WorldWithItem.Item','WorldWithRel.Rel'])
p('C20','A failed world operation changes nothing',
 "Whenever a world operation on items, relationships or nesting reports an error, the items, relationships and nesting are exactly as before it; and an operation whose operands do not exist, or that is given an unusable value, does report one.",
 ['inputs','histories'],'every operation, every way it can fail','No test makes an operation fail.',
 [W,T],[('validation before mutation',W+': ItemCreate, ItemSet, RelCreate, RelSet, Nest, Free, ItemDelete')],observe=['World state after Err() != nil'])
p('C21','Equality of worlds, trees, items and relationships is exact',
 "Comparing two items, relationships, trees or worlds says equal exactly when every attribute, endpoint, nesting and header field agrees; a difference in any single one is noticed, and the order in which parts were added or are stored never matters.",
 ['inputs'],'every pair of values, every single differing attribute, every storage order','Tests only compare equal worlds.',
 [W,T,I,R],[('comparisons',I+': ItemEqual; '+R+': RelEqual; '+T+': TreeEqual; '+W+': WorldEqual')],observe=['WorldEqual','TreeEqual','ItemEqual','RelEqual'])
p('C22','Error values are immutable and keep what they are given',
 "Deriving an error from another (adding a code, description, data or cause) never changes the original or any other error derived from it, and keeps everything the original carried except what is replaced. The code is the one last chosen, its description is the one defined for that code, the first cause can be unwrapped, and joining keeps every non-nil cause.",
 ['inputs','histories'],'every chain and branching of derivations','One derivation chain is tested, for its text only.',
 [E,'pkg/errors/codes.go'],[('builders',E+': New, UseCode, WithDescription, WithData, ClearData, WithError, Join, Unwrap')],observe=['TopolithError fields','TopolithError.String'])
p('C23','Worlds and sessions share nothing, and results are snapshots',
 "Operating on one world, tree or application never affects another that was created or loaded separately. Changing a value returned by a query (an item, a relationship, a list, the history) changes neither the world nor the history, and changing a parameter after an operation does not change what was stored.",
 ['histories','schedules'],'every pair of worlds, every returned value and passed parameter','Tests create one world at a time and never modify a result.',
 [W,T,A,I,R],[('fresh state per instance',W+': CreateWorld; '+T+': newTree, TreeFromString; '+A+': NewApp'),('copies',W+': accessors; '+A+': History')],observe=['World state','App.History'])
p('C24','An update changes exactly the attributes it names',
 "Setting attributes of an item or relationship changes the attributes that are given, each to the value given, and leaves all others, the identity and the endpoints as they were; clearing makes exactly the named attributes empty. Creating an item or relationship that exists never alters it, and says so if the attributes given differ from those it has.",
 ['inputs','histories'],'every subset of attributes, every previous value','No test sets or clears an attribute of an existing item or relationship.',
 [W,I,R],[('updates',W+': ItemSet, itemSet, RelSet, relSet, ItemCreate, RelCreate, equalItemParams, equalRelParams')],observe=['World.ItemFetch','World.RelFetch'])
p('C25','The item types are one vocabulary',
 "The type names the grammar accepts, those an item prints, and those the reading and printing functions translate are the same set, translated one to one in both directions. Every type that can be typed can be set, shown, saved and read back, and nothing outside the set is stored.",
 ['inputs'],'every type name and every type value','No test uses a type.',
 [I,W,G],[('tables',I+': ItemTypeFromString, StringFromItemType; '+G+': ItemType')],observe=['`item set x type=...`','Item.String'])
p('C26','No failure inside a command or load is swallowed',
 "Whenever a world operation, parse or file operation fails while a command, an undo, a load or a save is carried out, the user gets an error: no error result is dropped, overwritten or replaced by success anywhere between where it arises and the reply.",
 ['inputs','fault_sequences'],'every failing call, on every path to the caller','Tests contain no failing operation.',
 [C,A,W,S,T],[('error propagation','every call that yields an error in pkg/app, pkg/world, pkg/persistence, cmd')],observe=['App.Exec','Persistence','world.FromString'])
p('C27','The browser bridge relays every reply faithfully',
 "The reply handed to JavaScript carries the status code of the application's reply, its result object, the complete original text, and an error code and message exactly when that status is not 200; a reply that cannot be parsed is handed over as an error with status 500.",
 ['inputs'],'every command sent from the browser','The bridge has no tests (it builds for js/wasm only).',
 ['cmd/wasm/main.go','web/src/wasm.ts'],[('conversion','cmd/wasm/main.go: toReply, jsReplyToJsValue, main')],observe=['topolithSend'])
p('C28','Everything the console suggests or documents can be typed',
 "Every command the console offers for completion, and every verb the README lists for items or relationships, is the beginning of a command that the grammar accepts and the application handles. What is typed at the console is executed once, unchanged apart from blanks around it, and the reply is printed.",
 ['inputs'],'every suggestion and every documented verb','The console and the README have no tests.',
 ['cmd/cli/main.go','README.md',G],[('suggestion table','cmd/cli/main.go: completer'),('executor','cmd/cli/main.go: executor'),('verb table','README.md')],observe=['console'])
p('C29','Undoing a whole session returns to the first world, text for text',
 "After any sequence of commands, undos and redos, whether they succeed or fail, undoing everything that is not undone yields exactly the printed text that the world had at the start, as long as no undo reports a failure.",
 ['histories'],'every session of any length','Quantifies over unbounded histories.',
 [C,A],[('composition of all undos',C)],observe=['World.String'])
p('C30','Parsing any input ends quickly',
 "Parsing ends for every text, after a number of steps that is at most proportional to a power of its length: no rule applies itself before something is consumed, no repetition goes round without consuming, and what is nested is not tried over again at every level of nesting.",
 ['inputs'],'every input text, of any length and nesting','Tests parse short, well-formed and shallow strings.',
 [GG,'pkg/grammar/grammar.peg'],[('backtracking parser',GG)],observe=['grammar.Parse'])
p('C31','The web terminal always comes back with a prompt',
 "Whatever is typed in the web terminal, each line is shown as it is typed and, when it is ended, sent once and unchanged; then its reply is shown, or a message when the engine is not loaded, throws or answers with something unreadable, and in every case one new prompt appears and an empty line is begun.",
 ['inputs','schedules'],'every line, every key, every way in which the engine is loaded, answers or fails','The web client has no tests.',
 ['web/src/TopolithTerminal.tsx','web/src/wasm.ts'],[('terminal event handler','web/src/TopolithTerminal.tsx')],observe=['terminal output'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
