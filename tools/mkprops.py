#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Redirections take effect simultaneously and exactly",
  "A command started with any set of redirections finds on each redirected descriptor exactly the stream that redirection names, where a numeric source means whatever that number referred to in the calling process when the pipeline was started. This holds for any mix of files and numbers, including several descriptors sharing one source, swapped or chained numbers, and standard descriptors that are closed in the caller. Files are opened with the requested flags and mode (read-only for stdin, write/create for stdout and stderr unless given).",
  ["inputs", "configurations"], "every set of redirections (targets, sources, flags, order) and every set of initially open descriptors",
  "The tests use one or two fixed redirections with the default 0/1/2 numbering; collisions between target and source numbers depend on the numeric values and on the order in which redirections are applied.",
  ["pieshell/redir.py", "pieshell/pipeline/command.py"],
  [("sources are first moved above every number in use", "pieshell/redir.py Redirects.move_existing_fds / find_free_fd / Redirect.move"),
   ("then duplicated onto their targets", "pieshell/redir.py Redirect.perform"),
   ("performed in the child before exec", "pieshell/pipeline/command.py Command._child")],
  [("redirects", "target descriptor -> redirection", "pieshell/redir.py Redirects.redirects")],
  ["descriptor table of the process at the moment of exec"])
p("C02", "A stage that cannot be set up fails, and never runs the caller's code",
  "When setting up a command's process fails after the process was created (a redirection file cannot be opened, a descriptor call fails, the working directory is gone, the program is missing or not executable, or an interrupt arrives), the program is not run with missing or wrong redirections: the process ends with a non-zero exit status, so the pipeline is reported as failed. Wherever the set-up fails, the new process ends by running the program or by exiting; it never returns into the code that started the pipeline. A file that cannot be opened for stdin or stdout therefore always makes the command fail.",
  ["fault_sequences", "crash_points"], "every system call between process creation and program start failing with any error, or an interrupt arriving there",
  "Tests only start programs whose set-up succeeds; a fault has to be injected at each individual call of the child.",
  ["pieshell/pipeline/command.py", "pieshell/redir.py"],
  [("child wrapper around _child ending in os._exit", "pieshell/pipeline/command.py Command._run"),
   ("redirections performed before chdir and exec", "pieshell/pipeline/command.py Command._child")],
  [], ["exec/_exit calls of the child process", "exit status", "return of run() in the child"])
p("C03", "Every stage is wired exactly as the pipeline expression says",
  "For every pipeline built from commands, functions, iterators, parallel groups (a + b), pipelines or functions used as arguments, and redirections, each stage's stdin, stdout and stderr and each /dev/fd argument is connected to exactly the stage, file or outer stream the expression names. Each started program holds no descriptors besides those. Therefore a reader sees end-of-file as soon as the stages writing to it are gone, and a writer sees a broken pipe as soon as the stages reading from it are gone. A subshell stands in a pipeline like the pipeline it runs: its programs get the same streams, arguments, directory and variables.",
  ["programs", "configurations"], "every pipeline expression up to a stated size, every assignment of descriptor numbers by the system",
  "Tests run a handful of shapes and look at the output; a stray copy of a pipe end only shows up as a hang for other shapes, or as data lost in one branch.",
  ["pieshell/pipeline/pipe.py", "pieshell/pipeline/group.py", "pieshell/pipeline/command.py", "pieshell/pipeline/function.py", "pieshell/pipeline/redirect.py", "pieshell/redir.py", "pieshell/utils/pipe.py", "pieshell/log.py"],
  [("pipe creation and hand-over of the other end", "pieshell/redir.py Redirect.make_pipe, pieshell/pipeline/pipe.py Pipe._run"),
   ("lending of outer descriptors to sub-pipelines", "pieshell/redir.py Redirects.borrow"),
   ("closing everything not redirected in the child", "pieshell/redir.py Redirects.close_other_fds"),
   ("argument pipes", "pieshell/pipeline/command.py Command._handle_arg_pipes")],
  [], ["descriptor tables of all processes and of the caller after start"])
p("C04", "Running pipelines neither leaks nor steals descriptors of the caller",
  "After a pipeline has finished and its output has been consumed, the calling process has exactly the descriptors it had before the run: everything the run opened is closed exactly once, descriptors that were only lent to the run stay open, and redirections given as owned descriptors are closed. While it runs, a function stage never reads, writes or closes a descriptor number after it has been closed, whatever the order of readiness events, write errors and task wake-ups. Temporary files made to capture output are removed.",
  ["histories", "schedules", "fault_sequences"], "every pipeline shape up to a stated size, every order of events, every stage finishing or failing at any point",
  "No test counts descriptors; reuse of a closed number needs a specific order of events.",
  ["pieshell/redir.py", "pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/pipeline/pipe.py", "pieshell/pipeline/command.py", "pieshell/pipeline/running.py"],
  [("owned sources are closed after each stage is started", "pieshell/redir.py Redirects.close_source_fds"),
   ("handlers own a duplicate and close it once", "pieshell/iterio.py IOHandler.destroy"),
   ("recursion lock of the output handler", "pieshell/iterio.py OutputHandler.send_output")],
  [], ["descriptor table of the caller", "close/write/read calls"])
p("C05", "Reading a pipeline yields exactly its lines, bytes or text",
  "Iterating over a pipeline, or over the standard input given to a function stage, yields exactly the lines of the byte stream in order: split at newline bytes only, without the terminator, including empty lines and an unterminated last line. This is independent of how the operating system splits the stream into chunks, of line length, and of multi-byte characters straddling chunks. Lines and text are UTF-8. Converting a pipeline to bytes or str gives exactly the concatenated stream, and the end of the stream is reported only after all data and after the pipeline has finished.",
  ["inputs", "schedules"], "every byte stream up to a stated length and every way of cutting it into chunks",
  "Tests read a few short fixed lines that arrive in one chunk; the buffering logic only matters when a line, a newline or a character is split between reads.",
  ["pieshell/iterio.py", "pieshell/pipeline/base.py", "pieshell/pipeline/running.py", "pieshell/utils/asyncutils.py"],
  [("line buffering", "pieshell/iterio.py LineInputHandler"), ("byte chunks", "pieshell/iterio.py InputHandler"), ("sync iteration over async", "pieshell/utils/asyncutils.py asyncitertoiter")],
  [("buffer", "bytes read but not yet yielded", "pieshell/iterio.py")], ["values yielded by iteration", "str(pipeline), bytes(pipeline)"])
p("C06", "Everything a Python stage yields is written, in order, exactly once",
  "Every item yielded by an iterator, generator, async generator, coroutine or function stage is written to the stage's output in order and exactly once, followed by a newline: text as UTF-8, bytes unchanged, None as nothing, anything else as its str() (a coroutine handed out by a plain iterator stands for what it returns). This holds for any number of bytes the system accepts per write, items larger than a pipe's capacity included (which must not block the calling program), and any timing of the source. An item that cannot be written completely is never silently shortened: the stage is reported as failed with the error.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of items up to a stated size, every partial write and write error",
  "Tests write short strings that the kernel accepts whole; partial writes, full pipes and errors part-way never occur in them.",
  ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/utils/asyncutils.py"],
  [("conversion of items", "pieshell/pipeline/function.py Function._run convert"), ("writing when the descriptor is ready", "pieshell/iterio.py LineOutputHandler/OutputHandler.send_output"), ("iterator adapters", "pieshell/utils/asyncutils.py")],
  [("recursion_lock", "an item is being fetched", "pieshell/iterio.py OutputHandler")], ["bytes arriving on the stage's output"])
p("C07", "Child status words are decoded exactly",
  "For every status word the system can report for a child, the derived event says exactly what happened: exited (with the exit code), killed or dumped core (with the signal number), stopped (with the stop signal), or continued, and for which process id. In particular a stopped or resumed child is never taken for a terminated one, and exit codes 0 to 255 are preserved.",
  ["inputs"], "every wait status word the operating system defines (16-bit), every pid",
  "Tests only produce exits with status 0 and 1.",
  ["pieshell/signalio/signalutils.py"],
  [("decoding of waitpid status", "pieshell/signalio/signalutils.py get_sigchlds")], [], ["event dictionaries delivered to process handlers"])
p("C08", "A process is running until it has terminated, and then keeps its status",
  "A started process is reported as running until the system reports that it exited or was terminated by a signal, and never again afterwards; stop and continue events in between change nothing about that. Its exit code (or terminating signal number) is then reported unchanged, and it is reported as failed exactly if that number is not zero. What is shown of a started command agrees: the exit code once it has ended and only then, the signal that stopped it exactly while it is stopped. This holds for any sequence and coalescing of child notifications, and events of other processes have no effect on it.",
  ["histories", "schedules"], "every sequence of child events of up to a stated number of children, every grouping into SIGCHLD notifications",
  "Tests see one plain exit per process; signals, stops, continues and coalesced notifications need a schedule the test cannot force.",
  ["pieshell/signalio/__init__.py", "pieshell/signalio/signalutils.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/pipeline/running.py"],
  [("event routing by pid", "pieshell/signalio/manager_signalfd.py SignalManager.handle_event"), ("draining all children per notification", "pieshell/signalio/signalutils.py get_sigchlds"), ("completion", "pieshell/signalio/__init__.py ProcessSignalHandler.handle_event")],
  [("last_event", "last event of the process", "pieshell/signalio/__init__.py")], ["RunningItem.is_running/is_failed/exit_code"])
p("C09", "Waiting for a pipeline always ends once its stages have ended",
  "Every wait for a pipeline - any number of them, started before or after it finished, by run_interactive, await, iteration to the end or fg - returns or raises once all its processes and functions have ended, however each ended (exit, signal, return, exception) and whatever bytes they wrote to a captured stream. It does not return while a process or function of the pipeline is still running. A function stage that returns without consuming its input releases that input, so the stages feeding it are not kept alive by it.",
  ["schedules", "histories", "fault_sequences"], "every order in which stages end and waiters start, every way of ending, every captured output",
  "Tests wait once for pipelines that end normally; lost wake-ups depend on the order of events and on the way the last stage ends.",
  ["pieshell/pipeline/running.py", "pieshell/pipeline/builtins.py", "pieshell/iterio.py", "pieshell/pipeline/function.py"],
  [("finish future", "pieshell/pipeline/running.py RunningPipeline.wait/handle_finish"), ("per-item completion", "pieshell/pipeline/running.py RunningItem.await_finish")],
  [("finish_future", "what waiters sleep on", "pieshell/pipeline/running.py")], ["completion of wait()"])
p("C10", "A pipeline is reported failed exactly when one of its stages failed",
  "Waiting for a pipeline (or exhausting its output) raises PipelineFailed if and only if at least one of its processes ended with a non-zero status or by a signal, or one of its functions raised, and only after all of them have ended. The failed stages listed are exactly those, whatever the order of completion and the position of the failing stage. A subshell fails exactly if the pipeline run inside it fails.",
  ["schedules", "inputs", "histories"], "every combination of stage results and completion orders for pipelines up to a stated size",
  "One test has a single process exiting with 1; combinations of results, positions and orders are not sampled.",
  ["pieshell/pipeline/running.py", "pieshell/pipeline/base.py", "pieshell/pipeline/builtins.py"],
  [("failed_processes and wait", "pieshell/pipeline/running.py RunningPipeline"), ("subshell exit status", "pieshell/pipeline/builtins.py SubShell._child")],
  [], ["exceptions raised by wait(), failed_processes, exit status of a subshell"])
p("C11", "Suspending and resuming act on the whole pipeline and on nothing else",
  "Ctrl-Z at any moment while an interactive pipeline is waited for makes the wait raise PipelineSuspended and stops every process of it that has not ended; restarting or waiting again continues every such process, and the pipeline can still be waited for to its end. Signals are only ever sent to processes of that pipeline that have not yet been reaped, never to a process id that may have been given to another process. A suspend request outside such a wait affects no pipeline.",
  ["schedules", "histories"], "every moment of the suspend request relative to the ends of the processes, every later sequence of restart/wait",
  "Job control is untested; the hazards are races between exit, reaping and suspend.",
  ["pieshell/pipeline/running.py", "pieshell/pipeline/builtins.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py"],
  [("stop signal handler", "pieshell/pipeline/running.py StopSignalHandler"), ("suspend/restart", "pieshell/pipeline/running.py RunningPipeline, RunningProcess")],
  [("pipeline_suspended", "suspend was requested", "pieshell/pipeline/running.py")], ["kill() calls", "exception of wait()"])
p("C12", "Arguments reach the program exactly as given, after documented expansion",
  "The argument vector a program receives is the list of given arguments in order: R(...) and strings without '%', '~' or glob characters arrive byte for byte as one argument each, whatever other characters they contain; '%(name)s' is replaced by that environment variable (or scope variable); a leading '~' by the home directory; a pattern that matches nothing stays as it is. Named parameters become one '--name=value' each with '_' in the name turned into '-', True giving '--name' alone and False nothing. The expansions happen once each, in this order: '%' variables, '~', patterns (so the text of a variable may act as a pattern). No expansion result is split, merged or dropped.",
  ["inputs"], "every argument string up to a stated length over all characters, every combination of positional and named arguments up to a stated number",
  "Tests expand one glob; quoting-like properties must hold for every character.",
  ["pieshell/environ.py", "pieshell/pipeline/command.py"],
  [("expansion", "pieshell/environ.py Environment._expand_argument"), ("argument list", "pieshell/pipeline/command.py BaseCommand._arg_list")],
  [], ["argv of exec"])
p("C13", "Patterns match in the environment's directory, whatever its name",
  "A relative pattern argument expands to exactly the matching entries below the environment's own working directory - not the process's - each once, as a path that names that entry for the started program. The characters of the working directory's own name are never treated as pattern characters. As in a shell '*' does not match a leading dot, '**' means the same as '*', and a pattern ending in '/' matches only directories. If nothing matches, the argument is passed unchanged.",
  ["inputs", "configurations"], "every working directory name, pattern and directory content up to stated sizes",
  "The test matches one pattern in a directory with an ordinary name.",
  ["pieshell/environ.py"],
  [("glob expansion and relativising", "pieshell/environ.py Environment._expand_argument, _expand_path")], [], ["argv of exec"])
p("C14", "Changing directory is exact, all-or-nothing and local to the environment",
  "After a successful change of directory the environment's working directory is the absolute, normalised path obtained by resolving the given path ('~', '..', '.', relative or absolute) against the previous one, and programs are started there. A path that is not an existing directory raises an error and changes nothing. The calling process's own working directory changes if and only if the environment is interactive, and no other environment is affected.",
  ["inputs", "histories"], "every path string up to a stated length and every sequence of changes up to a stated length",
  "Tests change once into an existing absolute directory.",
  ["pieshell/environ.py", "pieshell/pipeline/builtins.py", "pieshell/pipeline/command.py"],
  [("path resolution and cd", "pieshell/environ.py Environment._expand_path, _cd"), ("cd builtin", "pieshell/pipeline/builtins.py CdBuiltin"), ("chdir in the child", "pieshell/pipeline/command.py Command._child")],
  [("_cwd", "working directory of the environment", "pieshell/environ.py")], ["env._cwd, os.getcwd, cwd of started programs"])
p("C15", "Environments are isolated from each other",
  "A program is started with exactly the exported variables of the environment its command was made in - an explicitly empty set included - and with that environment's working directory. An environment derived from another starts as a copy: later changes to variables, working directory or default redirections of either one are invisible in the other and, except for the default environment (which uses the calling process's variables), in the calling process's own environment. Commands keep referring to the environment they were made in, also when mixed in one pipeline.",
  ["histories", "configurations"], "every history of derivations and modifications up to a stated length",
  "Tests use one derived environment and look at one variable.",
  ["pieshell/environ.py", "pieshell/pipeline/command.py", "pieshell/redir.py"],
  [("copying of configuration", "pieshell/environ.py Environment.__call__/__init__"), ("exports", "pieshell/environ.py Environment._exports")],
  [("_exports", "environment variables", "pieshell/environ.py"), ("_redirects", "default redirections", "pieshell/environ.py")], ["envp/cwd of exec, env._exports, os.environ"])
p("C16", "Names in the interactive scope read back what was assigned",
  "In an interactive scope, a name reads back the value last assigned to it. Assigning to a name that is exported at that moment updates the exported variable; assigning to any other name creates or updates a Python variable and exports nothing. A name that is neither assigned nor exported nor a Python builtin denotes the command of that name, and an exported variable is readable by its name. The names a scope lists are the assigned and the exported ones and the commands. ('_', the names of the scope's own attributes and of the environment are reserved.)",
  ["histories"], "every sequence of assignments, exports, un-exports and reads up to a stated length, every name",
  "Tests do one assignment of each kind; shadowing needs a history in which the same name changes its kind.",
  ["pieshell/environ.py"],
  [("scope lookup and assignment", "pieshell/environ.py EnvScope.__setitem__/__getitem__")], [], ["values read from the scope, exports dictionary"])
p("C17", "All command spellings are equivalent and never modify each other",
  "Attribute names and call arguments build the same command however they are mixed: _('a','b'), _.a('b'), a('b') and a.b give programs the same argument vector, and '-x' forms add the option text as one argument. Building a command from another one, piping it, redirecting it or adding it to a group never changes the command it was built from, so any command or pipeline object can be used many times. A registered builtin name yields the builtin, any other name the external program.",
  ["inputs", "programs"], "every way to distribute a list of arguments over attributes and calls, up to a stated number",
  "Tests use single spellings and throw the objects away.",
  ["pieshell/pipeline/command.py", "pieshell/environ.py", "pieshell/pipeline/base.py", "pieshell/pipeline/builtin.py"],
  [("argument accumulation", "pieshell/pipeline/command.py BaseCommand.__call__/__getattr__/__sub__/__neg__"), ("operators", "pieshell/pipeline/base.py Pipeline")],
  [], ["argv of exec", "the objects afterwards"])
p("C18", "A pipeline object can be run any number of times, also concurrently",
  "Running a pipeline does not change the pipeline object: every run, whether one after the other or overlapping, starts the same programs with the same arguments, redirections and wiring as the first, on its own fresh pipes, processes and capture files. Using one pipeline object in several places of an expression gives independent stages. (Iterators and generators given as stages are consumed by the first run.) The status shown by one run never belongs to another.",
  ["histories", "programs"], "every pipeline shape up to a stated size, every number of runs up to a stated bound, with and without sharing of sub-pipelines",
  "Tests run every object once.",
  ["pieshell/utils/copy.py", "pieshell/pipeline/base.py", "pieshell/pipeline/command.py", "pieshell/pipeline/redirect.py", "pieshell/redir.py"],
  [("deep copy before running", "pieshell/pipeline/base.py Pipeline.run, pieshell/utils/copy.py"), ("copied redirections", "pieshell/redir.py Redirects.__init__")],
  [], ["descriptor tables and argv of each run"])
p("C19", "Captured output is exactly what was written",
  "With a STRING redirection (the default for stderr) the captured text of each stage is everything the stage wrote to it by the time the pipeline finished, complete even for bytes that are not valid UTF-8 (shown as \\xNN), and the temporary file is gone afterwards. With a TMP redirection the file holds exactly that output, stays until it is explicitly removed, and its path is reported. Stages of one pipeline do not get each other's captured output. The report of a failed pipeline contains the captured output of every stage that failed, once, and that of no other one.",
  ["inputs", "histories"], "every output byte string up to a stated length, every completion order of the stages",
  "One test creates one TMP file; content, invalid bytes and interplay of stages are not examined.",
  ["pieshell/redir.py", "pieshell/pipeline/running.py"],
  [("temporary files", "pieshell/redir.py Redirect.make_pipe"), ("collection at the end", "pieshell/pipeline/running.py RunningItem.handle_pipeline_finish, handle_pipeline_finish_destructive, output_files, remove_output_files")],
  [], ["output_content, output_files, temporary directory"])
p("C20", "bashsource imports exactly the variables bash exports",
  "After sourcing a bash script, every variable exported by that bash has in the environment exactly the value bash gave it - including empty values, blanks, quotes, backslashes, dollar signs, backquotes and the last variable listed. Nothing that is not an exported variable is added or changed, in particular not by text inside function definitions. Function definitions are recorded under their names.",
  ["inputs"], "every value up to a stated length over all characters, every list of declarations up to a stated number, with and without functions",
  "The test checks that one plain name is present, not its value; quoting must be undone for every character.",
  ["pieshell/pipeline/builtins.py"],
  [("parsing of bash's declarations", "pieshell/pipeline/builtins.py parse_declares, BashSource.parse_decls")], [], ["env._exports after bashsource"])
p("C21", "Every process in a process tree can be reached by name",
  "In the navigable view of processes, every member of a group is reachable through exactly one path of attribute names, members with clashing names being told apart by longer keys, and no member is lost or reachable under another's name. The listed names are exactly the attributes that exist, and each is a Python identifier. Processes whose name cannot be read or that have already ended do not hide the others.",
  ["inputs"], "every assignment of keys to up to a stated number of members",
  "Not tested at all; clashes depend on the key strings.",
  ["pieshell/tree.py", "pieshell/ps.py", "pieshell/pipeline/running.py"],
  [("grouping by key level", "pieshell/tree.py TreeGroup")], [], ["dir() and attribute access of the tree"])
p("C22", "Stream helpers preserve order, None markers and errors",
  "The adapters between plain and asynchronous iterators and the map and filter helpers (applied to plain or asynchronous iterators, or as stages of a pipeline) deliver every element exactly once and in order, call the given function once per element, without reading ahead, pass None markers through map and filter unchanged, drop exactly the elements a filter rejects, end exactly when the source ends, and hand on the source's exceptions.",
  ["inputs"], "every sequence of elements up to a stated length, an error at any position",
  "Tests run each adapter on two elements; filter is untested.",
  ["pieshell/utils/asyncutils.py", "pieshell/utils/jsonutils.py"],
  [("adapters", "pieshell/utils/asyncutils.py"), ("map/filter", "pieshell/utils/jsonutils.py")], [], ["sequence of results"])
p("C23", "The job list holds exactly the pipelines that have not finished",
  "A pipeline started in an environment is in that environment's list of running pipelines exactly from its start until all its stages have ended, whatever order pipelines start and end in and whether or not anybody waits for them and however a wait (also one with fg) ended; a pipeline that has nothing left to run is never listed. The environment's last pipeline is the one started last that had something to run.",
  ["histories", "schedules"], "every sequence of starts and ends of up to a stated number of pipelines",
  "Not tested.",
  ["pieshell/pipeline/base.py", "pieshell/pipeline/running.py"],
  [("registration", "pieshell/pipeline/base.py Pipeline.run"), ("removal", "pieshell/pipeline/running.py RunningPipeline.handle_finish")],
  [], ["env.running_pipelines, env.last_pipeline"])
p("C24", "Showing a pipeline runs it exactly once at the prompt and never elsewhere",
  "Displaying a pipeline object at the prompt runs it exactly once if its environment is interactive and it is not itself part of a run; in every other case - non-interactive environment, display of a pipeline that has been started or of a part of it, repr() of the pipeline or of anything that contains it - nothing is executed and a textual form naming its parts in order is produced. A display never raises because of what the pipeline contains or of how the run ended by suspension or interruption.",
  ["programs", "histories"], "every nesting, state and environment kind of displayed pipelines up to a stated size",
  "Tests display non-interactive pipelines only.",
  ["pieshell/pipeline/base.py"],
  [("guards in repr", "pieshell/pipeline/base.py Pipeline.__repr__, pipeline_repr")], [], ["processes started, text returned"])
p("C25", "A pickled pipeline runs remotely as the same pipeline",
  "A pipeline sent to another pieshell (remote builtin, or pickle and --pcmd) runs there as it would have run locally: the same programs with the same arguments, working directory and variables, the same redirections and wiring, and the same success or failure, which remote reports. This holds whatever has been run in the sending environment before, or is running there, and sending leaves the pipeline, the running pipelines and the environment as they were. ssh gets the arguments before the pipeline unchanged, is asked to run nothing but that pipeline, and is wired like any other command in its place. A pipeline that cannot be sent (local functions, generators) is reported, and nothing is started or consumed.",
  ["programs", "histories"], "every picklable pipeline expression up to a stated size, every history of the environment up to a stated length",
  "Not tested; needs two interpreters, and depends on everything the environment has done before.",
  ["pieshell/pipeline/base.py", "pieshell/pipeline/builtins.py", "pieshell/shell.py", "pieshell/environ.py", "pieshell/redir.py"],
  [("pickling of pipelines", "pieshell/pipeline/base.py describable_object_reduce, DescribableObject.__setstate__"),
   ("pickling of environments", "pieshell/environ.py Environment.__getstate__"), ("remote", "pieshell/pipeline/builtins.py Remote"),
   ("--pcmd", "pieshell/shell.py main")], [], ["programs started on the other side: arguments, directory, variables, streams"])
p("C26", "Completion offers what can be entered, and only looks",
  "dir() of an environment offers every program in the directories of its search path (relative entries counted from its own working directory, unusable entries skipped) and every builtin; completing a cd offers exactly the names that can be entered from there, and every sub-directory. Completing a command asks for exactly the words that command would be run with - argument texts of any kind arrive as single words and are never executed - and offers every completion given. Asking for completions neither fails nor changes anything: not the environment's descriptors, settings, working directory, running pipelines or last pipeline.",
  ["configurations", "inputs"], "every search path and directory contents, every partial command up to a stated size",
  "One test looks for one name in one directory listing; argument texts and odd search paths decide the rest.",
  ["pieshell/environ.py", "pieshell/pipeline/command.py", "pieshell/pipeline/builtins.py"],
  [("names of programs and builtins", "pieshell/environ.py Environment.__dir__"),
   ("completions of a command", "pieshell/pipeline/command.py Command.__dir__"),
   ("directories", "pieshell/pipeline/builtins.py CdBuiltin.__dir__")], [], ["dir() of environments and commands", "the line handed to the completion helper"])
p("C27", "The command line is obeyed exactly",
  "pieshell does what its command line says and nothing else: --help and --version only print; --log turns on exactly the named categories; the startup file is executed first and exactly once unless --no-startup is given; then --cmd executes its text (expression, statement or block) exactly once, or --pcmd runs the pickled pipeline, or each file named is executed completely and in order in one scope, or, with none of these, the prompt is started in that scope. Options and arguments reach the scope as args and kws unchanged. Whatever cannot be executed is reported and never silently skipped.",
  ["configurations", "inputs"], "every combination and order of options and arguments up to a stated length, texts of every form",
  "The tests never start the program.",
  ["pieshell/shell.py", "pieshell/environ.py", "pieshell/log.py"],
  [("options", "pieshell/shell.py main"), ("execution of files and statements", "pieshell/environ.py EnvScope.execute_file / execute_expr / _execute")],
  [], ["what is executed, printed and shown"])
p("C28", "A .pysh file is a module of its own",
  "Importing a name finds the first NAME.pysh along the path given (the package's path, or sys.path) and executes it completely in an environment of its own, derived from the current one: what it does to its working directory, exports or variables does not reach the importer or other modules, and the reverse. Attributes of the module are the names of its scope, for reading and writing, its commands included; from-import-star brings its public names; names the import system looks for are absent, not commands. A module that was imported is not executed again; reloading executes it again in the same scope; errors in it are reported.",
  ["programs", "configurations"], "every path and directory contents up to a stated size, every sequence of reads and writes of attributes up to a stated length",
  "No test imports a .pysh file.",
  ["pieshell/module.py", "pieshell/environ.py"],
  [("finding", "pieshell/module.py Finder.find_module"), ("environment of a module", "pieshell/module.py Loader.load_module"),
   ("attributes", "pieshell/module.py Module")], [], ["attributes of the module and of the importer's scope"])
p("C29", "Starting up keeps the user's configuration and needs no usable home",
  "Starting up executes ~/.config/pieshell exactly once if it exists and never changes it. If it does not exist the shipped default is installed there, complete and byte for byte, and executed; if that fails at any point (no home directory, no permission, disk full) the default is executed all the same, no part of a file is left behind and start-up goes on. The names promised to configurations (R, Redirect, TMP, STRING, PIPE, the pipeline errors, ...) are there before it is executed. The shipped configuration itself can be executed, and its prompt names the directory and the branch checked out there, and leaves the running and last pipelines alone.",
  ["fault_sequences", "configurations"], "every state of the home directory and every file operation failing",
  "No test executes a configuration.",
  ["pieshell/environ.py", "pieshell/resources/default_config.pysh"],
  [("installation and execution", "pieshell/environ.py EnvScope.execute_startup / _copy_resource"),
   ("the shipped configuration", "pieshell/resources/default_config.pysh")], [], ["contents of the configuration file", "names of the scope"])

p("C30", "Logging changes nothing about what it shows",
  "Whatever categories are logged (--log, log.enable), and whatever becomes of the log (unwritable, full, its reader gone), pipelines run exactly as without: the same programs with the same arguments, streams, directory and variables, the same data, exit status, errors and running pipelines, no descriptor left open, and none passed on. With nothing enabled nothing is logged; otherwise the enabled categories and no others are, each message ends its line and is encoded so that any text - also names that are not valid UTF-8 - can be logged.",
  ["programs", "fault_sequences"], "every pipeline up to a stated size, every set of categories up to a stated size, every text up to a stated length, every way of failing",
  "The tests never enable logging; texts, failing writes and what gets inherited decide it.",
  ["pieshell/log.py", "pieshell/iterio.py", "pieshell/redir.py", "pieshell/pipeline/command.py"],
  [("the log's descriptor and handler", "pieshell/log.py PieshellLogFDHandler.emit, logfd"), ("categories", "pieshell/log.py enable, log"),
   ("messages about descriptors", "pieshell/redir.py")], [], ["the log", "programs started: arguments, streams, results"])

p("C31", "What is shown about a command is what its help says",
  "The signature of a command (inspect.signature, and so what is offered for completing its parameters) names exactly the long options in what 'command --help' prints - '--' after a blank, followed by a letter and more letters, digits or dashes - each once, in order of first mention, with '_' for '-', so that command(name=value) gives that option; names that are Python keywords are left out. A parameter has a default (False) exactly if its option is mentioned somewhere without requiring a value; '<number>' asks for an int, another <...> for text, a listed word is offered as a choice. Every help text, whatever it contains, gives a signature; the documentation of a command is its help text. Asking runs the program once, with --help after the arguments the command has, and changes nothing: not the running pipelines, the last pipeline or the descriptors; a program that fails is reported.",
  ["inputs"], "every help text up to a stated length after the beginning of an option, every combination of mentions of up to a stated number of options",
  "No test asks for a signature.",
  ["pieshell/pipeline/command.py"],
  [("signature", "pieshell/pipeline/command.py Command.__signature__"), ("documentation", "pieshell/pipeline/command.py Command.__doc__, _help")],
  [], ["parameters of the signature", "programs started"])

p("C32", "What is shown of a command is an expression for exactly this command",
  "The text shown for a command that has not been started reads back, as a Python expression whose first word is an attribute of the environment, as a command with the same words in the same order; the text shown for a process of the process tree reads back as its command line. Words are only written as attributes if they can be ones: no empty or other texts that are no names, no keywords, nothing that names a method of commands; every other word is written as a quoted text, a long option at the end may be written as a keyword argument and an option -NAME as -NAME. The text for a pipeline reads back as the same pipes, groups and redirections ('with' belongs to what stands directly before it, + holds together more than |). (Patterns, ~ and % are shown expanded and are outside.) Showing runs nothing.",
  ["inputs"], "every list of words up to a stated number and length",
  "test_repr.py shows one command.",
  ["pieshell/pipeline/command.py", "pieshell/pipeline/base.py", "pieshell/pipeline/pipe.py", "pieshell/pipeline/group.py", "pieshell/pipeline/redirect.py", "pieshell/ps.py"],
  [("commands", "pieshell/pipeline/command.py BaseCommand._repr, _split_args"), ("processes", "pieshell/ps.py cmdline2pieshell, PstreeProcess.__repr__"), ("pipelines", "pieshell/pipeline/base.py Pipeline._repr_operand, _repr of Pipe, Group, CmdRedirect")],
  [], ["the text shown"])

with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
