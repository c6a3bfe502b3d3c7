LM = "sequence of calls, planned faults and thread switches (thread, call, step within the call)"
p("C14", "lib", "threads were switched inside library calls", S + " of thread schedules, differential against each thread alone",
  "Real threads run one at a time; the seeded scheduler switches them at basic blocks and at accesses to static data inside library calls, preferring data that calls write; every result is compared with the thread's solo run.", measure=LM, quick_s=45)
p("C15", "lib", "an allocation failed and later results were compared", S + F + " in operator new, differential against fault-free runs",
  "Single, repeated and persistent allocation failures at chosen points of chosen calls; outcome, validity of everything handed out, leaks, and the handle's behaviour after reset are checked.", measure=LM, quick_s=45)
p("C16", "lib", "more than three calls were checked", S + " of call histories over a checking allocator with hostile fresh memory",
  "Every buffer is checked against the allocator's books (start, size, kind, initialisation), every Dispose frees exactly that, and repeated rounds must not grow memory.", measure=LM, quick_s=45)
p("C17", "lib", "a program was abandoned and another one analysed after the reset", S + " of call histories, differential against a new handle",
  "Programs abandoned at any line, then reset; everything the handle says about the next program is compared with a new handle.", measure=LM, quick_s=45)
p("C18", "lib", "the tasks took more than two turns", S + " of task interleavings on one handle, differential against each task alone",
  "The seeded scheduler decides which task makes the next call on the shared handle; every result is compared with the task's run on a handle of its own.", measure=LM, quick_s=45)
p("C26", "lib", "more than six results were compared", S + " of call histories, differential against the parser classes driven directly",
  "Histories on one or two handles taking turns, over fresh memory full of garbage; every result handed over by the C interface is compared with what the classes behind it compute for the same history.", measure=LM, quick_s=45)
CM = "sequence of file changes, notifications, reads, restarts, commands, updates, tool starts and ends, and fired faults"
p("C19", "client", "the status bar text changed at least twice", S + F + " of the extension against simulated VS Code, file system and server",
  "Reads complete in any order, fail or see half a file; restarts take any time or fail; the status bar is compared with the file's content at rest, and must never go back to an older version.", measure=CM)
p("C20", "client", "the server was started or stopped at least three times", S + F + " of the extension against simulated VS Code, file system and server",
  "Starts, stops and restarts take any time or fail, servers crash; at rest the running server must have read the newest settings, no two restarts overlap, later changes still restart it.", measure=CM)
p("C21", "client", "the extension updated a setting and more than four changes were seen", S + F + " of the extension against simulated VS Code",
  "Updates complete, fail or change nothing in any order with the user's own changes and unrelated events; every watched change must be announced, the extension's own once only.", measure=CM)
p("C22", "client", "the tool was started more than twice", S + F + " of the extension against simulated processes",
  "Tools end, crash, do not start or throw at any time while the command is used again; one process at a time, startable afterwards, no unhandled rejection.", measure=CM)
p("C23", "client", "the server was started or stopped at least three times", S + F + " of the extension against simulated VS Code, processes and configuration",
  "Program, arguments and document selector of every server started are compared with the configuration at activation; failing starts, crashes, restarts and the end of the window at chosen times; reports and announcements are checked.", measure=CM)
p("C24", "client", "the extension updated at least two settings", S + F + " of the extension against simulated VS Code",
  "Answers, dialogs and updates take any time, are cancelled or fail; causes are followed through promises and timers, and each command's updates, dialogs and commands are compared with the answers.", measure=CM)
