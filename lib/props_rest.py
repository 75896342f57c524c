prop("C08", "Reference counts destroy an object exactly once under every thread schedule",
  "Whatever the interleaving of threads that copy and drop references to a shared object, the object is destroyed exactly once, after its last reference is dropped and never before. No access to the object's memory happens after it is freed and there are no data races on the count.",
  ["schedules"], "every interleaving (with unbounded or bounded preemptions) of two to three threads doing a few reference operations each",
  "Tests are single-threaded.",
  [C + "Reference.h", RT + "thread/impl/Atomic_CPP11.h"], [("atomic increment/decrement", C + "Reference.h:RefCounted")])

prop("C09", "Locks give mutual exclusion and never lose a waiter",
  "Under every thread schedule, at most one thread is inside a critical section guarded by a Mutex, lazily initialised mutex, spin lock or exclusive read-write lock, and readers exclude writers. Memory written under a lock is seen by its next owner without data races, tryLock never blocks and succeeds only if it takes the lock, and every thread that asks for a lock that gets released eventually takes it.",
  ["schedules"], "every interleaving of two to three threads within a preemption bound",
  "Tests are single-threaded; no test runs two threads on one lock.",
  [RT + "thread/Mutex.h", RT + "thread/impl/Mutex_CPP11.h", RT + "thread/impl/Mutex_POSIX.h", RT + "thread/impl/Mutex_LazyInit.h", RT + "thread/impl/Mutex_SpinLock.h", RT + "thread/impl/RWLock_POSIX.h"],
  [("lazy initialisation", RT + "thread/impl/Mutex_LazyInit.h"), ("atomic exchange", RT + "thread/impl/Mutex_SpinLock.h")])

prop("C10", "Threads, events, semaphores and condition variables lose no wake-up and no work",
  "A thread runs its function exactly once and join returns only after it has finished; a semaphore lets through exactly as many waits as it was signalled; a manual-reset event, once signalled, releases every waiter until it is reset; a condition variable wait releases its mutex while waiting and holds it on return. No schedule loses a wake-up, deadlocks, or lets a timed wait return early with a false result.",
  ["schedules"], "every interleaving of two to three threads within a preemption bound",
  "Tests never block one thread on another.",
  [RT + "thread/ManualResetEvent.h", RT + "thread/impl/ManualResetEvent_CondVar.h", RT + "thread/impl/Semaphore_POSIX.h", RT + "thread/impl/ConditionVariable_CPP11.h", RT + "thread/impl/ConditionVariable_POSIX.h", RT + "thread/impl/Thread_POSIX.h", RT + "thread/impl/ThreadLocal_POSIX.h"],
  [("condition variable + flag", RT + "thread/impl/ManualResetEvent_CondVar.h")])

prop("C15", "An input stream delivers the source's bytes in order, however they arrive",
  "Reading through an InStream, by any mix of byte reads, block reads, views, skips and save-point rewinds, yields exactly the bytes the source produces, in order, without loss or duplication, however the source divides them. After the last byte the stream reports end of file and every further read reports failure; rewinding to a live save point yields the same bytes again.",
  ["inputs", "histories", "fault_sequences"], "every division of the source into reads, every sequence of read operations up to a depth, block boundaries included",
  "TestInStream reads a few fixed buffers; chunk boundaries times operations is combinatorial.",
  [RT + "io/InStream.cpp", RT + "io/InStream.h"], [("block list with save points", RT + "io/InStream.cpp:tryMakeBytesAvailableInternal"), ("readSlowPath", RT + "io/InStream.cpp")])

prop("C16", "An output stream emits exactly the bytes written, in order",
  "Whatever mix of single bytes, strings, reserved blocks, formatted values and flushes is written to an OutStream, its destination receives exactly those bytes in that order, and a memory stream yields exactly them when its contents are taken. Nothing is lost or repeated at buffer boundaries or on destruction, and when the destination fails the stream reports it and stops.",
  ["histories", "inputs", "fault_sequences"], "every sequence of write operations with sizes around the buffer size, every failure point of the destination",
  "Tests write short strings to a memory stream.",
  [RT + "io/OutStream.cpp", RT + "io/OutStream.h"], [("block filling and flush", RT + "io/OutStream.cpp")])

prop("C17", "File-descriptor pipes survive short transfers and interruptions",
  "Bytes written through an operating-system pipe or file arrive complete and in order although individual system calls transfer fewer bytes than asked or are interrupted, and reads return data or report end of file exactly as the descriptor delivers it. A real error is reported, never silently turned into success, and each descriptor is closed exactly once.",
  ["fault_sequences"], "every sequence of short counts, EINTR and errors returned by read, write and close within bounds",
  "Tests never see a short or interrupted transfer.",
  [RT + "io/impl/Pipe_FD.cpp", RT + "io/Pipe.h"], [("write loop", RT + "io/impl/Pipe_FD.cpp:OutPipe_FD_write")])

prop("C18", "Unicode text encodings encode and decode every code point consistently",
  "Every code point encodes to the standard UTF-8 and UTF-16 byte sequence and decodes back to itself consuming exactly those bytes. Every byte sequence, valid or not, decodes without reading past its end; truncated sequences are reported as truncated and malformed ones as invalid, and skipping what was reported always makes progress.",
  ["inputs"], "all code points, all byte sequences up to four bytes for UTF-8 and all pairs of units for UTF-16",
  "Tests decode a handful of sample files.",
  [RT + "string/TextEncoding.cpp", RT + "string/TextEncoding.h"], [("decodePoint", RT + "string/TextEncoding.cpp")])

prop("C19", "Text conversion gives the same output however the text is divided",
  "Converting text between encodings yields the encoding of the same code points, with the documented substitution for malformed input, whatever the sizes of the chunks supplied and of the destination buffers. No character is lost, duplicated or altered at a chunk boundary or at the end of input, and conversion always terminates.",
  ["inputs", "histories"], "every text of a few characters (valid, malformed, truncated), every division into input chunks and output buffers",
  "Tests convert whole files.",
  [RT + "io/text/TextConverter.cpp", RT + "io/text/TextConverter.h"], [("shared conversion buffer", RT + "io/text/TextConverter.cpp:convert")])

prop("C20", "Newline normalisation gives the same output however the text is divided",
  "Normalising newlines turns every LF or CRLF of the input into the chosen form, drops every other carriage return, and leaves all other bytes unchanged. The result is the same for every division of the text into input chunks and output buffers, is complete after a flush, and is idempotent; a destination that fails is reported.",
  ["inputs", "histories"], "every text over CR, LF and letters up to a length, every division",
  "Tests filter whole files.",
  [RT + "io/text/NewLineFilter.cpp"], [("needsLF state", RT + "io/text/NewLineFilter.cpp")])

prop("C21", "Text saved in any format loads back as the same text",
  "Any text written with any supported text format (encoding, byte-order mark, newline style) and read back with that format is the same text. A file whose content determines its format, by byte-order mark or by content, is autodetected so that loading it gives that text, and autodetection terminates with a usable format for every byte sequence.",
  ["inputs", "configurations"], "all formats times all short texts; all short byte sequences for autodetection; sizes around block boundaries",
  "AutodetectTest covers fixed sample files.",
  [RT + "io/text/TextFormat.cpp", RT + "io/text/TextFormat.h"], [("BOM and statistics", RT + "io/text/TextFormat.cpp:autodetect")])

prop("C22", "Numbers print and parse without changing value",
  "Every integer printed in any radix parses back to itself, and parsing any digit string gives its exact value or reports failure on overflow or malformed input, consuming exactly the number's characters. A floating-point value prints within one unit of the last digit printed and parses within eight units of double precision of its text's value; malformed input is reported, never returned as a valid number. Unspecified: numbers that begin or end with a radix point.",
  ["inputs"], "all 16-bit integers and boundary neighbourhoods of wider types in every radix, all short digit strings",
  "Tests parse and print a few numbers.",
  [RT + "io/impl/TypeParser.cpp", RT + "io/impl/FormatString.cpp"], [("parseU64/parseS64/parseDouble", RT + "io/impl/TypeParser.cpp"), ("printers", RT + "io/impl/FormatString.cpp")])

prop("C23", "Text scanning consumes exactly the characters its format describes",
  "Reading lines, whitespace, identifiers, quoted strings, delimited fields and arbitrary matched formats from a stream returns exactly the text the format describes and leaves the stream right after it, however the stream is divided into blocks. Input that does not match is reported as a failure, and scanning any input terminates.",
  ["inputs", "histories"], "every short text over each format's special characters, every block division",
  "StringReaderTest checks fixed strings in one block.",
  [RT + "io/impl/TypeParser.cpp", RT + "io/InStream.h"], [("TypeParser specialisations", RT + "io/impl/TypeParser.cpp")])

prop("C24", "Escaping keeps any text intact and harmless",
  "Text escaped as a quoted string, XML/HTML text or double-quoted attribute, URL or command-line argument contains no character that its context would interpret, and undoing the escape with the standard rules gives the original text. Format strings substitute their arguments exactly where they say, and any text in an argument is inserted unchanged.",
  ["inputs"], "all strings over each context's special characters up to a length",
  "Tests escape one or two strings.",
  [RT + "io/impl/FormatString.cpp", RT + "io/OutStream.h"], [("FormatSpec/escape printers", RT + "io/impl/FormatString.cpp")])

prop("C25", "Path operations obey the path algebra on every path",
  "Joining, normalising, splitting and relativising paths in both Windows and POSIX styles denote the same file as the operating system's rules for the original paths: normalising is idempotent and keeps the meaning of '..', joining with an absolute path drops what comes before it, a relative path joined to its base yields the target (whenever both are absolute or both relative, and the base does not begin with '..' that would have to be undone), and splitting then rejoining restores the path. No operation turns a path into one that denotes a different file; symbolic links are not considered.",
  ["inputs"], "every path of up to several components over '.', '..', names, repeated separators and drive letters",
  "TestPath checks a few literals.",
  [RT + "filesystem/Path.cpp", RT + "filesystem/Path.h"], [("normalize", RT + "filesystem/Path.cpp"), ("makeRelative", RT + "filesystem/Path.cpp")])

prop("C26", "File-system operations do what they report and report what they did",
  "After any sequence of directory creation, writing, loading, moving, deleting, listing and existence queries, the file tree is exactly what the successful operations define, loads return the bytes last saved, and each result code tells truthfully whether the operation took effect. Saving identical contents with the save-if-different operations leaves the file untouched.",
  ["histories"], "every sequence of operations on a small tree of names up to a depth, against a model tree and the real file system in a scratch directory",
  "Tests barely touch the file system.",
  [RT + "filesystem/FileSystem.cpp", RT + "filesystem/impl/FileSystem_POSIX.cpp"], [("POSIX wrapper", RT + "filesystem/impl/FileSystem_POSIX.cpp")])

prop("C27", "A file-system failure is always reported and never destroys saved data",
  "If any underlying system call of a file-system operation fails, the operation reports failure (or has taken full effect), leaks no descriptor and terminates. A save that fails or is cut short at any point never leaves the previous contents of a file replaced by partial data while reporting success. (close() is taken to fail only by interruption; a read error while a text file is loaded is a known finding.)",
  ["fault_sequences", "crash_points"], "every single and double fault at every system call of each operation",
  "Tests never see a failing system call.",
  [RT + "filesystem/FileSystem.cpp", RT + "filesystem/impl/FileSystem_POSIX.cpp"], [("errno mapping", RT + "filesystem/impl/FileSystem_POSIX.cpp"), ("temporary file and rename", RT + "filesystem/FileSystem.cpp:makeDirsAndSaveBinaryIfDifferent")])

prop("C28", "Recursive walks and deletions stay inside the tree and visit all of it",
  "Walking a directory tree visits every directory once and lists exactly its entries, and removing a tree removes all of it and nothing outside it, including when it contains symbolic links to other places or odd names. A walk honours the caller's removal of subdirectories from the visit.",
  ["inputs", "configurations"], "every small directory tree shape with files, directories, links and odd names",
  "No test walks or removes a tree.",
  [RT + "filesystem/FileSystem.cpp", RT + "filesystem/FileSystem.h"], [("FileSystemWalker", RT + "filesystem/FileSystem.cpp"), ("removeDirTree", RT + "filesystem/impl/FileSystem_POSIX.cpp")])

prop("C29", "A virtual file system never reaches outside its root",
  "Every path given to a virtual file system is resolved inside its root directory: files outside the root can be neither read, listed, created, changed nor deleted through it. A path that names something inside the root behaves as it does on the underlying file system, once '.' and '..' are resolved by name; a path that leads outside is refused with an error. (Symbolic links inside the root are followed as the underlying file system does.)",
  ["inputs"], "every path of up to several components over names, '.' and '..' for every operation",
  "No test covers it.",
  [RT + "filesystem/impl/FileSystem_Virtual.cpp"], [("mapPath", RT + "filesystem/impl/FileSystem_Virtual.cpp")])

prop("C30", "Calendar conversion is exact for every representable time",
  "Converting any time stamp to calendar fields gives the proleptic Gregorian date, weekday and time of day, and converting back gives the same time stamp, for times before and after 1970, leap years, and both ends of the range (all in UTC: the time-zone fields are zero).",
  ["inputs"], "the first and last microsecond of every representable day, every second of selected days",
  "TestDateTime checks two dates.",
  [RT + "time/DateTime.cpp", RT + "time/DateTime.h"], [("civil-from-days arithmetic", RT + "time/DateTime.cpp")])

prop("C31", "Byte offsets map to the line and column a reader would count",
  "For every offset of every text the reported line and column are those obtained by counting newlines and characters from the start (a tab moves to the next column after a multiple of four, a carriage return takes no column, an invalid byte takes one), in a text of any mix of line endings, tabs and multi-byte characters, of any length. An offset inside a character gives that character's column and the bytes into it; no offset up to and including the end of the text fails.",
  ["inputs"], "every short text over newline and multi-byte characters and texts placing a multi-byte character at every alignment around the map's table interval",
  "No test covers texts longer than the table interval.",
  [RT + "io/text/FileLocationMap.cpp"], [("location table every 256 bytes", RT + "io/text/FileLocationMap.cpp")])

prop("C32", "Template tag extraction neither loses nor invents text",
  "Extracting embedded tags from a template yields every stretch of literal text and every tag body exactly as written and in order, so that literal text, bodies and delimiters concatenate to the input. This holds wherever the delimiters' characters also occur inside literal text or tag bodies. (What becomes of a tag that is never closed is not specified.)",
  ["inputs"], "every text over the delimiter characters up to a length",
  "No test covers it.",
  [RT + "io/text/LiquidTags.cpp"], [("state machine", RT + "io/text/LiquidTags.cpp")])

prop("C33", "A subprocess gets exactly its arguments and its pipes carry all its data",
  "A started subprocess receives exactly the argument list, working directory and redirections asked for, whatever characters the arguments contain; everything it writes to a redirected stream can be read in order up to end of file; joining it returns its exit code. No descriptor made by the operation is inherited by this or any other subprocess beyond the three standard streams, even one started at the same moment by another thread, and none is left open. A failure to start is reported: no subprocess is returned, or joining it gives an exit code other than zero.",
  ["inputs", "fault_sequences", "configurations"], "every redirection combination, all short argument strings over special characters, every failing system call",
  "TestProcess starts one process.",
  [RT + "process/impl/Subprocess_POSIX.cpp", RT + "process/Subprocess.cpp"], [("fork/exec and pipe wiring", RT + "process/impl/Subprocess_POSIX.cpp")])

prop("C34", "Pylon documents survive writing and parsing",
  "Any Pylon document built from objects, arrays and texts, written out and parsed back, is the same document: same structure, same order of object properties and same text bytes. Writing is deterministic and its output parses without error.",
  ["inputs"], "every document of a few nodes with property names and texts over special characters",
  "ParserTest and Pylon tests check sample documents.",
  [S + "pylon/pylon/pylon/Write.cpp", S + "pylon/pylon/pylon/Parse.cpp"], [("text escaping", S + "pylon/pylon/pylon/Write.cpp"), ("recursive descent", S + "pylon/pylon/pylon/Parse.cpp")])

prop("C35", "The Pylon parser accepts exactly the language and never crashes on bad input",
  "For every input nested no deeper than the stack allows, the Pylon parser terminates without a crash or memory error and either returns the document the grammar assigns to the input, each node knowing its place in it, or reports at least one error and returns an invalid node. Duplicate properties, unterminated strings, bad escapes and stray characters are all reported with a position inside the input.",
  ["inputs"], "every token sequence and every character sequence up to a length",
  "Tests parse a fixed set of good and bad samples.",
  [S + "pylon/pylon/pylon/Parse.cpp"], [("tokenizer and recovery", S + "pylon/pylon/pylon/Parse.cpp")])

prop("C36", "Pylon nodes behave as ordered property maps and arrays",
  "For any sequence of set, get and remove operations, a Pylon object holds exactly the properties last set, iterates them in insertion order, and each lookup returns the value last set for that name or the missing value; arrays index exactly their items. Looking up through missing or wrongly typed nodes yields the missing value and never crashes.",
  ["histories"], "every operation sequence over a few names up to a depth",
  "No test covers the node operations.",
  [S + "pylon/pylon/pylon/Node.h", S + "pylon/pylon/pylon/Node.cpp"], [("item array plus index map", S + "pylon/pylon/pylon/Node.cpp")])

prop("C37", "Reflected objects survive export to Pylon and import back",
  "Exporting a reflected object to Pylon and importing it gives an equal object for every value of its members (numbers, truth values, enumerations, strings, arrays, fixed and enumeration-indexed arrays, nested structures, switches and owned objects; floating-point values to the precision of text formatting), and importing tolerates missing, extra and reordered properties without touching unrelated members. Import of a mistyped or out-of-range member is safe: it leaves the member as it was but never corrupts memory or leaks. An export filter replaces exactly the objects it chooses, at every depth.",
  ["inputs", "configurations"], "every combination of small member values for structs, arrays, enums, strings and owned pointers; every single-node mutation of the document",
  "No test covers the round trip.",
  [S + "pylon/reflect/pylon-reflect/Export.cpp", S + "pylon/reflect/pylon-reflect/Import.cpp"], [("type-descriptor dispatch", S + "pylon/reflect/pylon-reflect/Import.cpp")])

prop("C38", "Persisted objects load back identical, with their schema and links",
  "Saving an object graph in the binary format and loading it gives an equal graph: values, strings, arrays, nested structures, owned objects and links between objects of the graph. The saved schema describes the saved data, so that it loads even in a process with different or reordered types; a member whose type changed between numeric types keeps its value if the new type can represent it. Unspecified: links to objects that the graph does not own, and malformed files.",
  ["inputs", "configurations"], "every small object graph and value combination over all persistable descriptor kinds",
  "No test covers persistence.",
  [S + "reflect/ply-reflect/PersistWriteObject.cpp", S + "reflect/ply-reflect/PersistReadObject.cpp", S + "reflect/ply-reflect/PersistWriteSchema.cpp", S + "reflect/ply-reflect/PersistReadSchema.cpp"], [("link table", S + "reflect/ply-reflect/PersistWriteObject.cpp")])

prop("C39", "Conversion recipes gather exactly the named members from their sources",
  "A recipe made for a target structure of floats and (nested) fixed arrays and a list of source structures copies every target member from the first source that has a member of that name, element by element, from fixed arrays or from dynamic arrays of any length, as many elements as both have. It can be applied any number of times, touches no other byte of the target, and leaves the sources alone, whatever the order, number and types of members and the size of the recipe.",
  ["configurations", "inputs"], "every structure of up to three members over every supported pair of kinds and source, and recipes of hundreds of members in blocks of every size",
  "No test covers conversion.",
  [S + "reflect/ply-reflect/TypeConverter.cpp"], [("conversion recipes", S + "reflect/ply-reflect/TypeConverter.cpp")])

prop("C40", "Crowbar scripts evaluate as the language defines",
  "Every Crowbar program over 32-bit unsigned integers, booleans, strings, variables, properties of reflected C++ objects, operators, interpolated strings, conditionals, loops, functions and recursion produces the output, and leaves the objects, its operator precedence and statement semantics define. Variables and arguments hold copies: evaluation never changes a variable or object it does not assign, nor the program itself. A misuse (an unknown name, operands without such an operator, division by zero, a condition that is not boolean, a value that is missing or of another type than the variable or property it is assigned to, a wrong number of arguments) stops the program with exactly one report located in the right functions, never a crash, and no object stays alive. Whether && and || evaluate both operands, and assignments to literals or call results, are unspecified.",
  ["programs"], "every program up to a size from a grammar of expressions and statements, against an independent evaluator",
  "CrowbarTest runs 45 fixed samples.",
  [S + "crowbar/ply-crowbar/Interpreter.cpp", S + "crowbar/ply-crowbar/Parser.cpp", S + "reflect/ply-reflect/methods/ObjectStack.cpp", S + "reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp"], [("operator precedence climbing", S + "crowbar/ply-crowbar/Parser.cpp"), ("interpreter dispatch", S + "crowbar/ply-crowbar/Interpreter.cpp")])

prop("C41", "The Crowbar front end never crashes and reports every malformed program",
  "For every input text, tokenising and parsing a Crowbar program terminates without crash or memory error. A malformed program gets at least one error report, the first at the token where it stops being one, and a well-formed program gets none and the parse tree its text defines, in which every token can be located and read again. Unspecified: keywords used as names, statements that follow a return or closing brace without separator, assignments to literals or call results, unclosed comments, letters after a backslash, numbers beyond 32 bits, and nesting beyond the stack's size.",
  ["inputs"], "every token sequence up to a length, every short character sequence of string literals, every edit of whole programs",
  "CrowbarTest covers a fixed list of samples.",
  [S + "crowbar/ply-crowbar/Tokenizer.cpp", S + "crowbar/ply-crowbar/Parser.cpp", S + "crowbar/ply-crowbar/ParseUnexpected.cpp"], [("tokenizer repository", S + "crowbar/ply-crowbar/Tokenizer.cpp"), ("error recovery", S + "crowbar/ply-crowbar/Parser.cpp")])

prop("C42", "The C++ preprocessor and parser handle every input safely and exactly",
  "Every C++ source is cut into exactly its tokens: the longest punctuators of the token set, identifiers, numbers, strings and raw strings, with comments and directives (and their continuation lines) skipped, macros given through the interface expanded in place with their arguments listed, every token's text and location leading back to the source, and unclosed or unreadable constructs reported at their place. Parsing any sequence of tokens terminates without crash, memory error or leak, and every error it reports can be written out as text. Declarations of the supported subset are parsed without errors into exactly the tree, tokens and scopes that their syntax defines, whatever their layout, comments and directives, and wherever they stand among other declarations. Unspecified: conditional directives (all branches are kept), malformed numbers, prefixed raw strings, backslashes in line comments, nesting beyond the stack's size.",
  ["inputs", "programs"], "every short character sequence of each lexical class, every token sequence up to a length in every kind of place, every declaration of a grammar up to a depth in several layouts, every one-token damage of them",
  "ParserTest checks 67 fixed samples.",
  [S + "cpp/ply-cpp/Preprocessor.cpp", S + "cpp/ply-cpp/Parser.cpp", S + "cpp/ply-cpp/ParseDeclarations.cpp", S + "cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp", S + "cpp/ply-cpp/ParseExpressions.cpp"], [("include stack and linearised locations", S + "cpp/ply-cpp/Preprocessor.cpp"), ("token stream with push-back", S + "cpp/ply-cpp/Parser.cpp"), ("error recovery", S + "cpp/ply-cpp/ParseDeclarations.cpp")])

prop("C43", "The web server frames every request and response correctly",
  "For any request bytes arriving in any division, the HTTP server calls the handler once per complete request, in order, with exactly the method, URI, version, header fields and client address sent, or answers 400 to a request it cannot read, and then ends the connection, closing its descriptor exactly once. Every response it emits is well-formed (status line, header lines, chunked framing for HTTP/1.1), carries exactly the handler's header lines and body, is sent before the next request is awaited, and a handler that gives no response gets 500 on its behalf. Failed accepts, resets and short, interrupted or failed transfers at any point never crash, hang or stop the server or corrupt what the client has received. Whether start lines with repeated white space are accepted is unspecified.",
  ["inputs", "histories", "fault_sequences"], "every short request over HTTP's special characters, every division into reads, disconnection at every point",
  "No test covers the server.",
  [S + "web/common/web-common/Server.cpp", S + "web/common/web-common/Response.h", S + "web/common/web-common/OutPipe_HTTPChunked.cpp", RT + "network/impl/Socket_POSIX.cpp"], [("request parsing", S + "web/common/web-common/Server.cpp:serverThreadEntry"), ("chunked framing", S + "web/common/web-common/OutPipe_HTTPChunked.cpp"), ("accept and bind", RT + "network/impl/Socket_POSIX.cpp")])

prop("C44", "Web handlers never serve files outside their root",
  "For every request URI, the file-fetching, source-code and documentation handlers open only files inside their configured root directories (symbolic links followed), and answer with 404 for anything else, including directories and names cut short by a NUL byte. Files inside the root are served complete: with the content type of their extension, as escaped and numbered source lines, or as a page with its title. The documentation server's table of contents is the current contents.pylon with exactly the branch of the page expanded and its entry selected, and a damaged or missing file keeps the last good one. Pages served while the contents are replaced show one complete version, no older than the file when they were asked for, under every thread schedule.",
  ["inputs", "schedules"], "every URI of up to several components over names, '.', '..', empty components, encoded characters and NUL; every interleaving of pages served during a reload within a preemption bound",
  "No test covers the handlers.",
  [S + "web/common/web-common/FetchFromFileSystem.cpp", S + "web/common/web-common/SourceCode.cpp", S + "web/serve-docs/ply-web-serve-docs/DocServer.cpp"], [("path joining and normalisation", S + "web/common/web-common/FetchFromFileSystem.cpp"), ("reload under the lock", S + "web/serve-docs/ply-web-serve-docs/DocServer.cpp:serve")])

prop("C45", "Markdown becomes well-formed HTML for every input",
  "Parsing any text as Markdown ends without a failed assertion or memory error in a consistent tree, and converting it gives well-nested HTML: only known elements where they are allowed, no link inside a link, all text escaped, and every character kept that no rule takes away. Documents written from a tree of paragraphs, headings, indented code, block quotes and (nested, tight or loose, ordered or not) lists become exactly that tree; inline code, emphasis, strong emphasis and links follow CommonMark's rules (the rule on multiples of three, lazy continuation lines and items whose content is indented by more than one space are not specified).",
  ["inputs"], "every text over Markdown's special characters up to a length, every sequence of line kinds, every byte at every marker position, every small tree of blocks and of inline elements",
  "No test converts any Markdown.",
  [S + "web/markdown/web-markdown/ParseMarkdown.cpp", S + "web/markdown/web-markdown/ConvertToHTML.cpp"], [("block and inline parser", S + "web/markdown/web-markdown/ParseMarkdown.cpp")])

prop("C46", "The build system gives every target exactly what it needs and sees changes",
  "For every graph of build targets, externs and shared libraries with public and private dependencies, a target's effective include directories, definitions, flags, libraries and DLLs are exactly its own plus those reachable through dependencies visible to it, without duplicates, and in the generated CMakeLists.txt each library comes before those it needs; clashing definitions are reported; every target belongs to the shared library that contains it and no other. Names of modules, externs and providers, with or without repository prefixes, resolve to the one they denote or are reported as unknown, ambiguous or malformed; a dependency loop ends the program with a message that names it. The source files of a folder are exactly those of source extensions, sorted. A build folder is considered up to date only if nothing that determines it changed since it was generated, and is loaded as it was saved.",
  ["configurations", "histories"], "every dependency graph of up to four (thorough five) targets with every visibility labelling, every name of a family in every small world of repositories",
  "Tests build one fixed graph.",
  [S + "build/target/ply-build-target/Dependency.cpp", S + "build/target/ply-build-target/BuildTarget.cpp", S + "build/target/ply-build-target/CMakeLists.cpp", S + "build/repo/ply-build-repo/ProjectInstantiator.cpp", S + "build/repo/ply-build-repo/Repo.cpp", S + "build/repo/ply-build-repo/RepoRegistry.cpp", S + "build/repo/ply-build-repo/ModuleArgs.cpp", S + "build/folder/ply-build-folder/BuildFolder.cpp"], [("inheritance of dependencies", S + "build/target/ply-build-target/Dependency.cpp")])

prop("C47", "Vector, matrix and box mathematics obeys its algebra",
  "Rectangle and box operations (union, intersection, containment, rounding, mixing), vectors of two to four floats or integers of any size, matrices, axis and quaternion rotations, positions and projections, and their inverses and compositions satisfy their defining equations, within rounding error (approximations of sine and cosine within 1.2e-3). Integer power-of-two, bit-counting, rounding, alignment and range-checked conversion helpers are exact for every value of their type; conversion to half floats and back, and to and from sRGB, agree with their definitions for every half and every byte. Rounding of values beyond 32-bit integers is unspecified.",
  ["inputs"], "all small grids of operands; every half, every byte; integer helpers on all 16-bit values and all neighbourhoods of powers of two",
  "Tests cover a few literals.",
  [S + "math/math/ply-math/Box.h", S + "math/math/ply-math/Vector.h", S + "math/math/ply-math/IntVector.h", S + "math/math/ply-math/AxisVector.h", S + "math/math/ply-math/Quaternion.cpp", S + "math/math/ply-math/Matrix.cpp", S + "math/math/ply-math/Half.h", S + "platform/ply-platform/Util.h"], [("operator overloads", S + "math/math/ply-math/Vector.h")])

prop("C48", "Image operations touch exactly the pixels they name",
  "Filling, copying, cropping and flipping images, and converting between formats, write exactly the pixels of the requested image or view, for every size, format, distance between rows and position, and give each the defined value; nothing else in memory is read or written. A crop of a crop names the same pixels as one crop. An image that owns its pixels frees them once, whatever moves, copies and releases happen. A PNG file of an image holds its pixels.",
  ["inputs", "configurations"], "every small image size, rectangle, row distance and format combination; every float and byte converted",
  "No test covers images.",
  [S + "image/image/image/Image.cpp", S + "image/image/image/Image.h", S + "image/png/image-png/PNG.cpp"], [("conversion loops", S + "image/image/image/Image.cpp")])

prop("C49", "Mixing audio is exact and saturates, for every sample and length",
  "Mixing 16-bit audio (plain, at a level, at a changing level, and at another pitch with interpolation) gives every sample the value of its definition, saturated and never wrapped around, for levels from -65535 to 65536 sixty-five-thousandths, every number of frames and channels. No frame is dropped, duplicated, or read or written beyond its buffer; parts of a buffer name exactly their frames. A saved clip loads with its samples and points to them.",
  ["inputs", "configurations"], "all 16-bit samples at a set of levels; every start, step, volume and length of a set; every format",
  "No test covers audio.",
  [S + "audio/primitives/audio-primitives/Render.cpp", S + "audio/primitives/audio-primitives/Buffer.h", S + "audio/primitives/audio-primitives/Saturate.h", S + "audio/primitives/audio-primitives/OfflineClip.h"], [("fixed-point arithmetic", S + "audio/primitives/audio-primitives/Render.cpp")])

prop("C50", "An incremental cook gives what a cook from scratch would, and no more work",
  "After any history of edits, additions, removals and replacements of source files, cooking again leaves every requested job, and every job that they refer to, with exactly the result that cooking from scratch would give, and with an error if its source cannot be read. A job is cooked once per round and only if it is new or one of its dependencies has changed, whatever is cooked inside it and however jobs refer to each other; jobs that nothing refers to any more are destroyed with their results. A file that changes or cannot be read during a cook is seen by the next one. Unspecified: changes that leave the modification time as it was, cook loops, freeing jobs that refer to each other in circles.",
  ["histories", "fault_sequences"], "every history of edits and cooks over three files with every kind of link between them, every point of a cook for a file to change or a call to fail",
  "No test covers cooking.",
  [S + "cook/ply-cook/CookJob.cpp", S + "cook/ply-cook/CookJob.h"], [("dependency check and recook", S + "cook/ply-cook/CookJob.cpp:ensureCooked"), ("deferred references", S + "cook/ply-cook/CookJob.cpp:cookDeferred"), ("table of jobs by identity", S + "cook/ply-cook/CookJob.h:AllCookJobsTraits")])

prop("C51", "Generated reflection code states exactly what the sources declare",
  "Generating code for any tree of sources writes, for every file with reflected classes, enums and switches, exactly the .inl file that their declarations define: classes in the order of PLY_REFLECT with every data member between it and 'ply reflect off', enums with every enumerator, switches with every state; a.h and a.cpp share one file. Exactly one include is put before the closing brace of each switch and older ones are removed; every other byte of the sources stays, apart from the workspace's newline format, and generating again changes nothing. Misused commands are reported at their line; files that no module lists, and folders marked nocodegen, are untouched; no sequence of commands and declarations crashes. Unspecified: enums in switches, columns and order of locations in macros, the .inl of files with errors.",
  ["programs"], "every file made from declarations, commands and neighbours of a set, every tree of folders and markers of a set, every sequence of commands up to a length",
  "No test runs the code generator.",
  [S + "apps/plytool/plytool/Command_CodeGen.cpp", S + "apps/plytool/plytool/ReflectionHooks.cpp", S + "cpp/ply-cpp/ParsePlywoodSrcFile.cpp"], [("commands in comments and macros", S + "apps/plytool/plytool/ReflectionHooks.cpp:gotMacroOrComment"), ("substitutions", S + "apps/plytool/plytool/Command_CodeGen.cpp:performSubsts")])


SCHED = "systematic concurrency testing: every schedule of the real code within a preemption bound, run as fibers under a controlled scheduler, with vector-clock race and use-after-free detection"
def sched_part(name, **kw):
    return part(name, flavor=kw.pop("flavor", "sched"), engine=["sched.cpp"], **kw)
TRUST_SCHED = "Exhaustive over sequentially consistent interleavings within the preemption bound; weak-memory effects are covered through the race detector, which honours the C++ memory orders, but stale values of relaxed atomics are not modelled. The operating system's own mutexes, semaphores and threads are replaced by their POSIX semantics."
build_with("C08", "model_checking", "one execution per schedule and script of operations; states = scheduler states (thread states, vector clocks, lock owners); non-trivial = at least two threads share the object", [sched_part("h_refcount")], note=TRUST_SCHED, tech=SCHED)
build_with("C09", "model_checking", "one execution per schedule and script of lock operations; states = scheduler states (thread states, vector clocks, lock owners)", [sched_part("h_locks")], note=TRUST_SCHED, tech=SCHED)
build_with("C06", "model_checking", "one execution per operation sequence on a fresh heap, every live block's bytes, place and size checked after every operation; states = layouts of live blocks and segments", [part("h_heap", flavor="dl"), sched_part("h_heapmt", flavor="scheddl")])
build_with("C10", "model_checking", "one execution per schedule and script of operations; states = scheduler states (thread states, vector clocks, lock owners)", [sched_part("h_threads")], note=TRUST_SCHED, tech=SCHED)
build_with("C15", "model_checking", "one execution per source length, delivery pattern and operation sequence; states = stream positions, buffered amounts and save points; non-trivial = a save point or data present", [part("h_instream")])
build_with("C16", "model_checking", "one execution per operation sequence and failure point of the destination; states = bytes accepted, bytes received, room left; non-trivial = more than one block", [part("h_outstream")])
FAULT = "exhaustive fault injection: every outcome of every intercepted system call of the real code within the budget of faults"
build_with("C17", "model_checking", "one execution per operation sequence and assignment of outcomes (complete, short, interrupted, failed) to the system calls; states = bytes transferred and faults left; non-trivial = a fault occurred", [part("h_pipefd")], tech=FAULT, note="The kernel's read, write and close are replaced at link time by a model that may return any outcome POSIX allows, within the stated fault budget.")
build_with("C18", "exploration", "one execution per block of code points or of byte sequences; steps = sequences decoded or points encoded; compared with an independent encoder and decoder", [part("h_encoding")])
build_with("C19", "model_checking", "one execution per text, encoding pair and route, each for every division of the input and every small output buffer; states = bytes pending in the converter and output so far; non-trivial = the text can be divided", [part("h_textconv")])
build_with("C20", "model_checking", "one execution per text and place in the block, each for every division of the text and every small buffer; states = texts", [part("h_newline")])
build_with("C21", "model_checking", "one execution per text and format or byte sequence, each for every division near the end; states = distinct files", [part("h_textformat")])
build_with("C22", "exploration", "one execution per string, radix or block of values; steps = numbers printed or parsed; compared with 128-bit integer arithmetic, strtod and long double", [part("h_numbers")])
build_with("C23", "exploration", "one execution per text, each parsed in memory and in every division at three places in a block; states = texts and formats", [part("h_scan")])
build_with("C24", "exploration", "one execution per text, byte, argument list or format string; states = texts; undone by an independent reader of each context's standard rules", [part("h_escape", extra_includes=["web-common"])])
build_with("C25", "exploration", "one execution per path, list of paths or pair of paths in each format; states = distinct arguments; compared with an independent reading of drive, root and names", [part("h_path")])
build_with("C26", "model_checking", "one execution per operation sequence on a starting tree; states = distinct file trees; non-trivial = the tree is not empty", [part("h_fs")], note="The code under test runs on a file system in memory (every system call it makes is intercepted at link time); one scenario replays the same calls on the kernel in a scratch directory and compares every result, error code and tree.")
build_with("C27", "model_checking", "one execution per operation and assignment of outcomes (success, each error, short, interrupted) to its system calls, or stopping point; states = resulting trees per failing calls; non-trivial = a call failed", [part("h_fsfault")], tech=FAULT, note="The code under test runs on a file system in memory, which C26 compares with the kernel; close() never fails other than by interruption, and crashes keep the order of modifying calls.")
build_with("C28", "model_checking", "one execution per directory tree, form of its path and choice of pruned subdirectories; states = trees and paths; steps = directories visited or removed", [part("h_fswalk")], note="The code under test runs on a file system in memory, which C26 compares with the kernel.")
build_with("C29", "model_checking", "one execution per operation, path and form of the root; states = results and resulting trees; steps = operations", [part("h_vfs")], note="The code under test runs on a file system in memory, which C26 compares with the kernel. Symbolic links inside the root are followed as the underlying file system does.")
build_with("C30", "exploration", "one execution per 400-year cycle, hour or end of the range; steps = times converted and converted back; compared with a calendar counted day by day", [part("h_datetime", flavor="fast")])
build_with("C31", "exploration", "one execution per text, each checked at every offset; states = texts; compared with counting from the start", [part("h_filelocation", flavor="asan")])
build_with("C32", "exploration", "one execution per text; states = texts; non-trivial = it has a complete tag; compared with a search for the delimiters", [part("h_liquidtags")])
build_with("C33", "model_checking", "one execution per combination of redirections, initial descriptors and assignment of outcomes to system calls; states = descriptor tables of parent and child; non-trivial = a call failed or data flowed", [part("h_subproc")], tech=FAULT, note="The operation runs on a model of the descriptor tables (its system calls are intercepted; the child of its fork is a real copy of the process that ends where it would run the program); two scenarios run real processes through the kernel. close() never fails.")
build_with("C34", "exploration", "one execution per document, or per first byte of a text; states = documents; steps = documents written and read back", [part("h_pylonwrite", modules=["runtime", "pylon"])])
build_with("C35", "exploration", "one execution per input, or per place of damage; states = inputs; steps = inputs parsed; compared with an independent reader of the grammar", [part("h_pylonparse", modules=["runtime", "pylon"])])
build_with("C36", "model_checking", "one execution per operation sequence; states = contents; steps = operations", [part("h_pylonnode", modules=["runtime", "pylon"])])
build_with("C37", "exploration", "one execution per pair of member values, or per damaged document; states = values or documents; steps = objects imported; compared with an independent model of import", [part("h_pylonreflect", modules=["runtime", "reflect", "pylon", "pylon-reflect"], codegen=True)])
build_with("C38", "exploration", "one execution per pair of member values, or per tree with links; states = values or graphs; steps = objects loaded; compared member by member and link by link", [part("h_persist", modules=["runtime", "reflect"], codegen=True)])

build_with("C39", "exploration", "one execution per target and source structures; states = resulting targets; steps = floats copied; compared byte by byte with a direct copy by the two type trees", [part("h_convert", modules=["runtime", "reflect"], codegen=True)])
build_with("C43", "model_checking", "one execution per session and assignment of outcomes to its system calls; states = requests handled and bytes answered; steps = system calls; compared with an independent request and response parser", [part("h_server", modules=["runtime", "web-common"])], tech=FAULT, note="The network is replaced at link time by connections in memory; the server's threads run one at a time, at once or delayed until the next connection.")
build_with("C44", "exploration", "one execution per request path, text or table of contents, each for five forms of the root; states = distinct responses; steps = requests served", [part("h_webfiles", modules=["runtime", "reflect", "pylon", "pylon-reflect", "web-common", "web-documentation", "web-serve-docs"], codegen=True), sched_part("h_docsmt", modules=["runtime", "reflect", "pylon", "pylon-reflect", "web-common", "web-documentation", "web-serve-docs"], codegen=True)], note="The handlers run on a file system in memory, which C26 compares with the kernel; every file they open is recorded. Symbolic links inside the root are followed.")
build_with("C45", "exploration", "one execution per text or document; states = distinct results; steps = texts converted; read by a strict HTML reader, and compared with the tree the document was written from or an independent statement of the emphasis rules", [part("h_markdown", modules=["runtime", "web-common", "web-markdown"])])
build_with("C46", "exploration", "one execution per graph, name and world of repositories, or folder; states = distinct results; steps = targets propagated or names resolved; compared with an independent model, in memory and in the text written for CMake", [part("h_buildgraph", modules=["runtime", "reflect", "pylon", "pylon-reflect", "cpp", "build-target", "build-provider", "build-repo", "build-folder"], extra_includes=["build-common"], codegen=True)], note="Repositories, modules and externs are made in memory; CMake itself is not run.")
build_with("C47", "exploration", "one execution per operand or group of operands; states = distinct operands; steps = pairs of operands; compared with plain arithmetic", [part("h_math", modules=["runtime", "math"])])
build_with("C48", "exploration", "one execution per operation, format and size, each for every rectangle and stride; states = combinations; steps = operations compared byte by byte with plain loops; the memory around the image is guarded", [part("h_image", modules=["runtime", "math", "image", "image-png"], libs=["-lpng"])], note="Cairo's wrappers and reading of PNG files (not implemented) are not covered; pixels of an image without columns are not addressed.")
build_with("C49", "exploration", "one execution per format, level, length or group of samples; states = distinct results; steps = buffers mixed; compared with 64-bit arithmetic; the memory around buffers is guarded", [part("h_audio", modules=["runtime", "reflect", "audio"], codegen=True)])
build_with("C41", "exploration", "one execution per prefix of tokens or characters, each for every continuation; states = prefixes; steps = programs parsed; acceptance, place of the first error, parse tree and locations compared with a reference grammar", [part("h_crowparse", modules=["runtime", "reflect", "crowbar"], codegen=True)])
build_with("C40", "exploration", "one execution per prefix of statements, operands or constructs, each for every continuation; states = distinct outputs; steps = programs run; output, errors, their places and the reflected object compared with an independent evaluator of an independent parse tree", [part("h_crowbar", modules=["runtime", "reflect", "crowbar"], codegen=True)])
build_with("C42", "exploration", "one execution per prefix of characters or tokens, each for every continuation, or per declaration, each in several layouts; states = distinct token lists and trees; steps = sources read; tokens compared with an independent lexer, trees and scopes with the tree that the source was written from", [part("h_cpplex", modules=["runtime", "reflect", "cpp"], codegen=True), part("h_cppparse", modules=["runtime", "reflect", "cpp"], codegen=True)])
build_with("C50", "exploration", "one execution per history of edits, roots, faults and interference; states = distinct sets of files and jobs; steps = cooks, each compared with a cook from scratch, with the set of jobs that had to be cooked and with the jobs still referred to", [part("h_cook", modules=["runtime", "reflect", "cook"], defines=["-Wno-c++11-narrowing"], codegen=True)])
build_with("C51", "exploration", "one execution per source or tree; states = distinct sets of files; steps = files generated; compared with the text that the declarations the source was written from define", [part("h_codegen", modules=["runtime", "reflect", "pylon", "pylon-reflect", "cpp", "build-target", "build-provider", "build-repo", "build-folder", "plytool-client", "plytool"], extra_includes=["build-common"], exclude=["plytool/Main.cpp"], codegen=True)])
