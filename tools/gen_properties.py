#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
H = "include/boost/context/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
FF, FU = H+"fiber_fcontext.hpp", H+"fiber_ucontext.hpp"
CF, CU = H+"continuation_fcontext.hpp", H+"continuation_ucontext.hpp"
ASM = ["src/asm/make_x86_64_sysv_elf_gas.S", "src/asm/jump_x86_64_sysv_elf_gas.S", "src/asm/ontop_x86_64_sysv_elf_gas.S"]
ALLH = [FF, FU, CF, CU]

prop("C01", "A switch reaches exactly the denoted context and hands back its resumer",
 "Resuming a handle transfers control to exactly the context that handle denotes, at the point where it last suspended (or at the start of its function), on the calling thread. The handle that the woken side receives denotes exactly the context that performed the resume, whichever path, depth or partner was involved. No other context observes any effect, and resuming cannot fail: it needs no memory.",
 ["schedules","histories","programs"],
 "every history of creates, resumes, injected functions, terminations and destructions over any number of contexts and switch partners (symmetric as well as asymmetric), for both APIs and every implementation",
 "tests run fixed ping-pong scripts between a main context and one or two others; arbitrary switch graphs, where a stale or swapped identity would show, are never built",
 ALLH+ASM, [("jump/ontop primitives","src/asm/*_x86_64_sysv_elf_gas.S"),("activation record 'from'/'current' bookkeeping",FU+" fiber_activation_record::resume")],
 [("current record","which context runs on this thread (ucontext implementation)","src/fiber.cpp, src/continuation.cpp")],
 ["return value of resume()/resume_with()","argument of the context function"])
prop("C02", "A suspended context's frames, locals and preserved registers survive intact",
 "Whatever other contexts do while a context is suspended - run, grow their stacks, create, terminate, throw, unwind or release stacks - every live local of every frame of the suspended context and every register the calling convention preserves has, on its next wake-up, the value it had when it suspended.",
 ["schedules","histories","configurations"],
 "every interleaving of activity of other contexts between a suspension and the next wake-up, every call depth, every compiler-visible placement of live values",
 "tests compare a handful of locals after one or two switches; register and deep-frame corruption that needs particular liveness or a third context's activity is not sampled",
 ASM+ALLH, [("save/restore of callee-saved registers and stack pointer","src/asm/jump_x86_64_sysv_elf_gas.S, src/asm/ontop_x86_64_sysv_elf_gas.S"),("record placed above the usable stack",FF+" create_fiber1")],
 observe=["locals and registers after resume() returns"])
prop("C03", "Each context keeps its own floating-point control environment",
 "The SSE and x87 control settings (rounding, precision, flush and denormal modes) that a context has in force when it suspends are in force again when it wakes, and settings made by one context never leak into another. A new context starts with the settings in force where it was created.",
 ["schedules","histories"],
 "every sequence of control-word changes interleaved with every kind of switch: resume, injected function, termination hand-off, forced unwind, creation, on any thread",
 "one test changes nothing but checks a sum of doubles; no test changes control words around each kind of switch",
 ASM+[FU,CU], [("stmxcsr/fnstcw and ldmxcsr/fldcw around the switch","src/asm/jump_x86_64_sysv_elf_gas.S, ontop_x86_64_sysv_elf_gas.S"),("initial control words","src/asm/make_x86_64_sysv_elf_gas.S")],
 observe=["MXCSR and x87 control word after each wake-up"])
prop("C04", "Handles are one-shot, move-only owners with consistent validity",
 "A handle is valid from the moment it is obtained until it is resumed, moved from, swapped away or destroyed, and invalid afterwards; boolean test, negation and streaming agree with that state, and ordering is a strict order that tells different valid handles apart. Moving, self-moving, swapping or assigning handles never switches context except where assignment drops a still-suspended context, which is then unwound exactly once. At most one valid handle denotes a context at any time, and a handle to a terminated context is invalid.",
 ["histories","programs"],
 "every sequence of handle operations over any population of valid, empty, moved-from and terminated-context handles interleaved with switches",
 "tests exercise a move, a swap and a bool test once each in isolation",
 ALLH, [("exchange of the stored pointer on resume",FF+" fiber::resume"),("swap-based move construction and assignment",FF+" fiber::operator="),("terminated flag in boolean test",FU+" fiber::operator bool")],
 observe=["operator bool, operator!, operator<, operator<<, swap"])
prop("C05", "A finishing context hands control to exactly the context it returns",
 "When a context function returns a handle, the context is terminated, control continues in exactly the context denoted by that handle, and that context receives an invalid handle. This holds whichever context is named - creator, last resumer or any third suspended context - and the finished context's code never runs again.",
 ["histories","schedules"],
 "every choice of successor in every switch graph, from any depth of prior history, any thread",
 "tests return to the creator or one fixed peer; chains where successor, creator and resumer all differ are not covered",
 ALLH, [("exit on the successor's stack",FF+" fiber_entry/fiber_exit"),("termination in run()",FU+" fiber_capture_record::run")],
 observe=["handle received by the successor"])
prop("C06", "Dropping a suspended context unwinds its stack once, in order, then returns",
 "Destroying or overwriting the valid handle of a suspended context runs the destructor of every live object on that context's stack exactly once, innermost first, on that context, wherever it was suspended. Control then comes back to the destroying context right after the destruction, with its own state untouched, and with no exception left behind that counts as being handled (nor while contexts run that the unwinding itself drops): this nests when unwinding drops further handles, and works when no memory is left.",
 ["crash_points","histories","schedules"],
 "every suspension point at which a context may be dropped (any call depth, inside an injected function, inside a nested operation), every nesting of ownership between contexts, every dropping context and thread",
 "tests drop a context suspended at one shallow point with one object on its stack",
 ALLH+[H+"detail/exception.hpp"], [("unwind exception thrown on the target",FF+" fiber_unwind"),("force_unwind flag",FU+" ~fiber and resume")],
 observe=["destructor order and thread of control around ~handle"])
prop("C07", "A never-started context is safe to drop, move and inject into",
 "A context whose handle was obtained but never resumed never runs its function when dropped: only its function object and stack are released. Injecting a function into a never-started context runs that function first, on that context, and its result is the handle the context function then receives.",
 ["histories","configurations"],
 "every operation that can be applied to a not yet started context, in every population of other contexts, on any thread, for every implementation of the fiber API",
 "tests always start a fiber before they destroy it or inject into it",
 [FF,FU], [("two-phase entry",FF+" fiber_entry"),("first entry",FU+" fiber_capture_record::run")],
 observe=["whether the context function body ran; stack and functor ledgers"])
prop("C08", "Every stack goes back to its allocator exactly once, never while in use",
 "Every stack obtained for a context is given back to the allocator that supplied it exactly once and with the same stack description, no matter how the context ends: normal return, forced unwind, exception handed over, never started, failed creation. It is never given back while the context can still run or while code executes on it, and nothing is leaked once all handles are gone.",
 ["histories","crash_points","fault_sequences"],
 "every life history of every context, every allocator kind (default, custom, pooled, protected, preallocated), every termination path and thread",
 "tests do not account for stacks at all, except one counter in a single script",
 ALLH+[H+"fixedsize_stack.hpp",H+"pooled_fixedsize_stack.hpp"], [("destroy(): move allocator out, destroy record, deallocate",FF+" fiber_record::destroy"),("deallocate from handle destructor",FU+" ~fiber")],
 observe=["allocate/deallocate calls of the stack allocator"])
prop("C09", "Function object and allocator copies live exactly as long as their context",
 "The decayed copy of the context function and of the stack allocator are constructed once from what the caller passed (moved when an rvalue is passed, copied when an lvalue is), stay alive and unmoved while the context exists, and are destroyed exactly once when it ends. The allocator that gives the stack back is a live object equal to the one passed, and the caller's own lvalue objects are left untouched.",
 ["histories","programs","fault_sequences"],
 "every callable kind (function pointer, lambda, bind, reference wrapper, type-erased, move-only, over-aligned, large), every value category, every end of the context",
 "tests pass one or two callable kinds and never count constructions and destructions",
 ALLH, [("record construction with forwarded arguments",FF+" create_fiber1"),("record destruction",FF+" fiber_record::destroy")],
 observe=["constructor/destructor ledger of callables and allocators"])
prop("C10", "An injected function runs exactly once, on the target, before it continues",
 "A function passed along with a resume runs exactly once, on the target context's stack, receives the handle of the resumer, and its returned handle - the same, a different or an empty one - is what the target's own pending resume yields. This stays true when the function itself suspends, creates, resumes, destroys or injects into other contexts, and later plain resumes of that target never run it again. The function object that runs is the target's own: it is moved there if it was passed as an rvalue, may change its own state, and stays intact until it is left, even if the context that injected it is dropped or finishes meanwhile.",
 ["histories","schedules","programs"],
 "every callable kind and value category, every behaviour of the injected function including suspension inside it, every state of the target, every later history",
 "tests inject functions that return at once and are resumed once",
 ALLH+["src/asm/ontop_x86_64_sysv_elf_gas.S"], [("ontop trampoline",FF+" fiber_ontop"),("stored ontop function",FU+" resume/resume_with")],
 observe=["invocations of the injected function; value of the target's resume"])
prop("C11", "An exception thrown by an injected function surfaces once, in the target",
 "An exception leaving an injected function propagates out of the target context's own pending resume, unchanged and exactly once, through the target's frames and no one else's. The resumer is merely suspended: its handle is the one the function received, and both contexts remain fully usable afterwards.",
 ["histories","schedules"],
 "every depth of handler in the target, every type and payload, repeated injections and throws, with any later history of both contexts",
 "one test throws one exception once and then ends",
 ALLH, [("call of the injected function below the target's frames","src/asm/ontop_x86_64_sysv_elf_gas.S"),("ontop invocation in resume",FU+" resume")],
 observe=["catch site in the target, later resumes"])
prop("C12", "An exception never crosses from one context's stack to another",
 "An exception that escapes a context function ends the program through std::terminate, with that exception current, before any other context runs; it is never delivered to the resumer or creator. Exceptions thrown and caught inside one context, including while others are suspended in their own operations, are invisible to all others.",
 ["histories","schedules"],
 "every exception type, depth, thread and point in a history at which a context function may let an exception escape or handle one internally",
 "a terminating program ends the test process, so no test tries it; internal throw/catch is tested with one context",
 ALLH, [("noexcept entry functions",FF+" fiber_entry; "+FU+" fiber_entry_func")],
 observe=["std::terminate handler"])
prop("C13", "Contexts may be resumed, dropped or finished on another thread",
 "A suspended context that does not stand for a thread's own stack may be resumed, injected into, dropped or run to completion by any thread, one at a time, with the same result as on its first thread; the handle it receives denotes the thread's context that resumed it. Threads may start and exit at any point, including the thread that created or last ran the context, without affecting contexts other threads still hold, and an exiting thread leaks nothing.",
 ["schedules","histories"],
 "every distribution of switches over threads, every thread start/exit order, every mix of operations",
 "one test moves one context to one other thread once",
 ALLH+["src/fiber.cpp","src/continuation.cpp"], [("per-thread current record with reference counted initializer","src/fiber.cpp, src/continuation.cpp")],
 [("per-thread root record","stands for the thread's own stack","src/fiber.cpp")],
 observe=["resume on a second thread; allocation ledger at thread exit"])
prop("C14", "A failed creation leaves nothing behind and changes nothing",
 "When creating a context fails - memory or mapping exhausted, the stack allocator throws, the function cannot be copied, or the platform cannot capture a context - the caller gets the corresponding exception with the right error, no stack or object is leaked or released twice, and the creating context and every other context carry on as if the call had never been made.",
 ["fault_sequences","histories"],
 "every failing call inside creation, for every allocator kind and value category, at every point of a history, repeated",
 "no test makes an allocation or system call fail",
 [FU,CU,FF,CF,H+"fixedsize_stack.hpp",H+"pooled_fixedsize_stack.hpp",H+"posix/protected_fixedsize_stack.hpp"], [("error path after getcontext",FU+" create_fiber1/create_fiber2"),("bad_alloc on failed allocation",H+"fixedsize_stack.hpp allocate")],
 observe=["exception seen by the creator, ledgers"])
prop("C15", "A resume-with that cannot start leaves both contexts as they were",
 "If injecting a function fails before control is transferred - the function object cannot be copied or stored - the caller gets that exception, still owns the target through the same valid handle, remains the running context, and the target is neither started, altered nor leaked; a later resume or injection works normally.",
 ["fault_sequences","histories"],
 "every failing copy, move or allocation while the function is prepared, every callable size and value category, any history afterwards",
 "no test makes the preparation of an injected function fail",
 ALLH, [("preparation of the injected function",FU+" resume_with; "+FF+" resume_with")],
 observe=["handle validity after the exception; later switches"])
prop("C16", "A protected stack always ends in an inaccessible guard page",
 "Every stack handed out by the protected allocator has at least the requested usable size and directly below it a page (of the size its traits class states) that can be neither read nor written, so an overflow traps at once and never touches another stack or the heap. If the guard cannot be established the allocation fails with an exception and leaks nothing.",
 ["inputs","fault_sequences","histories"],
 "every requested size (page multiple or not), the library's own traits class or one of the user's, every allocate/deallocate history, every failing mapping or protection call, every overflowing context",
 "tests run on the protected stack once and never touch the guard or fail a system call",
 [H+"posix/protected_fixedsize_stack.hpp"], [("mprotect of the lowest page",H+"posix/protected_fixedsize_stack.hpp allocate")],
 observe=["access to the page below the usable area"])
prop("C17", "Stack allocators hand out disjoint, correctly described, reusable memory",
 "Each allocate of the fixed-size, protected and pooled allocators returns a description whose top and size delimit readable and writable memory of at least the configured size (by default the default size of its traits class) that overlaps no other live stack, or throws std::bad_alloc. Each deallocate releases exactly that memory and nothing else, memory is recovered across any allocate/release history, and the pool's configured growth limits are respected.",
 ["histories","inputs","fault_sequences"],
 "every interleaving of allocations and releases across allocator objects and copies, sizes, growth parameters, traits classes and failing system calls",
 "tests allocate one stack per allocator",
 [H+"fixedsize_stack.hpp",H+"pooled_fixedsize_stack.hpp",H+"posix/protected_fixedsize_stack.hpp"], [("top = base + size",H+"fixedsize_stack.hpp allocate"),("pool with next_size/max_size",H+"pooled_fixedsize_stack.hpp storage")],
 observe=["returned stack descriptions, underlying malloc/mmap calls"])
prop("C18", "A pool outlives every copy and context using it, across threads",
 "All copies of a pooled allocator share one pool, which is released exactly once, after the last copy - including copies inside contexts that are dropped by different threads - has gone, and never before. Everything done by other threads to the pool before they dropped their copy is visible to the thread that releases it.",
 ["schedules","histories"],
 "every interleaving, at memory-access granularity, of copying, moving and dropping allocator copies on several threads, under every outcome the C++ memory model allows for the orderings used",
 "no test shares a pool between threads; an ordering or atomicity fault shows only under a particular interleaving",
 [H+"pooled_fixedsize_stack.hpp"], [("atomic use count",H+"pooled_fixedsize_stack.hpp intrusive_ptr_add_ref/release")],
 [("use_count_","live copies of the pool handle",H+"pooled_fixedsize_stack.hpp")],
 observe=["destruction of the pool and release of its blocks"])
prop("C19", "A context stays inside the memory it was given and entry is ABI-aligned",
 "Creating and running a context touches only the memory between the bottom and the top of the stack it was given; with preallocated storage it starts below the caller's reserved area and leaves that area intact; but for a small fixed part all of the given stack, however large, is at the context's disposal, and a context created without an allocator has a stack of the default size. For every stack size and alignment of the given top, the function object is properly aligned (for alignments up to the 256 bytes the library provides for) and the context function starts with the stack alignment the calling convention demands.",
 ["inputs","configurations","histories"],
 "every stack base, size, top alignment, reserved-area size, and function object size and alignment",
 "tests use malloc-aligned 128 kB stacks and one preallocated layout",
 ALLH+[H+"preallocated.hpp","src/asm/make_x86_64_sysv_elf_gas.S"], [("rounding of the record address",FF+" create_fiber1/create_fiber2"),("alignment of the initial frame","src/asm/make_x86_64_sysv_elf_gas.S")],
 observe=["canaries around the stack, reserved area, alignment at entry"])
prop("C20", "Segmented stacks grow on demand per context and are fully released",
 "With segmented stacks a context starts on a segment of the size that was asked for (but for the runtime's own header) and may recurse far beyond its initial segment, in any interleaving with other growing contexts and threads, and each context finds its own segments again after every switch. All segments of a context are released when it ends, however it ends.",
 ["schedules","histories"],
 "every interleaving of growth, shrinkage, switches, unwinding and termination over several contexts and threads",
 "one test grows one context once",
 [H+"posix/segmented_stack.hpp",FU,CU,H+"stack_context.hpp"], [("split-stack context exchange on every switch",FU+" resume/resume_with"),("makecontext/releasecontext",H+"posix/segmented_stack.hpp")],
 observe=["deep recursion across switches, segment mapping ledger"])
prop("C21", "Stack traits report one consistent picture of the environment",
 "The reported page size, unboundedness and maximum size reflect what the system reports, stay constant for the process, and are the same for every caller, including threads whose first calls race; default and minimum sizes are usable stack sizes. No combination of callers or system limits makes a query misbehave.",
 ["schedules","configurations","inputs"],
 "every system limit and page size, every order and overlap of first calls by several threads",
 "tests see only the limits of the machine they run on and call from one thread",
 ["src/posix/stack_traits.cpp","src/windows/stack_traits.cpp",H+"stack_traits.hpp"], [("function-local statics","src/posix/stack_traits.cpp")],
 observe=["return values of the query functions"])
prop("C22", "The low-level switch transfers data and control exactly",
 "A low-level jump delivers to the target exactly the data pointer passed and a handle that resumes exactly the jumper's suspension point; a newly made context starts its function once with those values on the given stack, and a function injected on top of a suspended target runs on the target first and its two results are what the target's pending jump yields. None of these operations disturbs memory outside the target's own stack and the jumper's own frame.",
 ["schedules","inputs","histories"],
 "every switch graph over raw contexts, every data value, stack top alignment and size, mixed jumps and injected functions",
 "the tests use the low-level interface only through the high-level classes",
 ASM+[H+"detail/fcontext.hpp","src/fcontext.cpp"], [("register-level protocol","src/asm/*_x86_64_sysv_elf_gas.S")],
 observe=["transfer values on both sides"])
prop("C23", "All implementations and both APIs show the same observable behaviour",
 "For any program that stays within the documented rules, the sequence of observable events - which code runs in which order, which handles are valid, which destructors run, which exceptions arrive where - is the same for the assembly, ucontext and segmented implementations, and for the C++11 and later code paths.",
 ["programs","histories","configurations"],
 "every documented-rule-abiding program over the API, including injected functions, nested unwinding and thread changes",
 "each test variant is checked against its own expectations; no test compares implementations over random programs",
 ALLH, [("parallel implementations of one interface",H+"fiber.hpp, continuation.hpp")],
 observe=["event history of the same seeded program on every implementation"])
prop("C24", "With per-context stack-protector values, each context keeps its own",
 "When built with per-context stack guard support, every context has from its first instruction on a guard value equal to the creator's, finds its own value again after every switch even if another context changed theirs, and the creation of a context disturbs nothing in its creator's frame.",
 ["configurations","histories","schedules"],
 "every switch history in the guard-saving build configuration",
 "no test builds the library in this configuration",
 ASM, [("guard save/restore","src/asm/*_x86_64_sysv_elf_gas.S, BOOST_CONTEXT_TLS_STACK_PROTECTOR")],
 observe=["thread guard word before and after switches; caller frame around creation"])
prop("C25", "An asynchronous signal at any point of a switch is harmless",
 "A signal handler that runs on the current stack at any instruction boundary of a low-level switch, creation or injection - and itself uses stack, registers and floating point freely within the calling convention - does not change what either side of the switch observes.",
 ["crash_points","schedules"],
 "every instruction boundary inside the switch primitives, every direction of switch and every state of both contexts",
 "no test delivers a signal, and hitting a chosen instruction needs control of execution",
 ASM, [("stack pointer always covers live saved state","src/asm/*_x86_64_sysv_elf_gas.S")],
 observe=["state on both sides after a switch interrupted at each instruction"])
prop("C26", "Contexts stay usable from destructors while a stack is being unwound",
 "While a context is being unwound - by an exception or because its handle was dropped - destructors on its stack may create, resume, inject into, finish and drop other contexts with the usual results, and the unwinding then continues to its normal end. The same goes for destructors of function objects that the library destroys (of ended contexts, and injected ones), which may own contexts too.",
 ["histories","crash_points"],
 "every operation on other contexts performed by any destructor during any kind of unwinding, nested to any depth",
 "no test uses a context inside a destructor that runs during unwinding",
 ALLH, [("force_unwind handling",FU+" resume"),("unwind exception",FF+" fiber_unwind")],
 observe=["results of operations performed by destructors"])
prop("C27", "Sanitizer builds announce every switch with the right stack, once",
 "In builds with sanitizer support each switch is announced exactly once before it happens, naming the bounds of the stack really being entered, and completed exactly once on the other side with the token saved for that context; a finishing context gives up its token; tool-side context objects are created once per context and released when it ends.",
 ["histories","configurations"],
 "every switch kind and history in the sanitizer configurations of the ucontext implementation",
 "the test variants do not include sanitizer builds",
 [FU,CU], [("start/finish switch annotations",FU+" resume, resume_with, run")],
 observe=["calls into the sanitizer interface"])
prop("C30", "Ending a thread or the process with contexts alive is safe",
 "Destructors of thread-local and static objects and exit handlers that run while a thread or the process ends may still create, resume, inject into, finish and drop contexts with the usual results, on the ending thread and in whatever context asked for the end. Ending the process from within any context, at any depth, runs these handlers once, on that context's stack, and contexts that are still suspended are neither run nor unwound unless their handle is dropped.",
 ["histories","schedules","crash_points"],
 "every point of every history at which a thread may return from its start function or a thread or context calls exit(), and every operation the handlers perform then",
 "a test process ends only after its last context is gone; no test owns a context in a thread-local or static object or ends the process from a context",
 [FU,CU,FF,CF,"src/fiber.cpp","src/continuation.cpp"], [("thread-local toplevel record and its initializer","src/fiber.cpp, src/continuation.cpp")],
 [("current record","which context runs on this thread, needed until the last destructor of the thread has run","src/fiber.cpp, src/continuation.cpp")],
 ["results of operations performed by exit handlers and thread-local destructors","exit status of the process"])
prop("C31", "Valgrind builds declare exactly the stacks that are in use",
 "In builds with Valgrind support every stack handed out by a stack allocator of the library is known to Valgrind as a stack, once and with its real bounds, from the end of the allocation until it is given back, and no other memory is: neither after its release, however the context ended, nor after an allocation or a context creation that failed.",
 ["histories","inputs","configurations"],
 "every allocator, size and history of allocations, contexts, drops, moves and failures in the Valgrind configurations",
 "the tests are not built with Valgrind support and do not look at what Valgrind is told",
 [H+"fixedsize_stack.hpp",H+"posix/protected_fixedsize_stack.hpp",H+"pooled_fixedsize_stack.hpp",H+"stack_context.hpp"], [("registration and its identifier in the stack description",H+"stack_context.hpp")],
 observe=["client requests to Valgrind"])
prop("C32", "The Windows-fiber implementation keeps the contract of fiber and callcc",
 "In builds that use Windows fibers, fiber and callcc behave as stated for the other implementations: values and control pass, an injected function runs exactly once and first, a never-started context can be dropped without running, forced unwinding destroys every object, failures to create a context or to store a function have no effect but an exception. Every operating-system fiber the library creates is deleted exactly once, never while it runs, and none is left over; a failing CreateFiber is reported as an exception and leaks nothing.",
 ["histories","schedules","fault points"],
 "every history of creations, resumes, injected functions, drops, migrations between threads and failing resources with BOOST_USE_WINFIB",
 "the tests never build these files on this platform",
 [H+"fiber_winfib.hpp",H+"continuation_winfib.hpp","src/fiber.cpp","src/continuation.cpp"], [("record of the operating system's fiber",H+"fiber_winfib.hpp"),("callcc on fibers",H+"continuation_winfib.hpp")],
 observe=["calls to the fiber interface of Windows"])
prop("C33", "Shadow-stack builds give each context one shadow stack for as long as it lives",
 "In builds with shadow stacks (control-flow enforcement, SHADOW_STACK_SYSCALL) each context has one shadow stack of its own, mapped when it is created with a size the system accepts. Every switch leaves the shadow stack of the running context so that it can be entered again and enters that of the target; it is unmapped completely and exactly once when the context ends, however it ends, and never while it is executed on. A failure to map it makes the creation throw and leaks nothing. Apart from that fiber and callcc behave as in other builds.",
 ["histories","schedules","fault points","configurations"],
 "every history of creations, resumes, injected functions, drops, migrations between threads, stack sizes and failing mappings with shadow stacks enabled",
 "the tests are not built with shadow stacks, and this part did not even compile with assertions enabled",
 [FF,CF]+["src/asm/make_x86_64_sysv_elf_gas.S","src/asm/jump_x86_64_sysv_elf_gas.S","src/asm/ontop_x86_64_sysv_elf_gas.S"], [("mapping and release",FF+" create_fiber1, create_fiber2, fiber_exit"),("tokens of left shadow stacks","src/asm/jump_x86_64_sysv_elf_gas.S")],
 [("shadow stack base and size","kept in the gap below the record","include/boost/context/fiber_fcontext.hpp")],
 ["map_shadow_stack and munmap calls","instructions that switch shadow stacks"])
prop("C28", "Generic call helpers forward every argument and result unchanged",
 "The helper that calls an arbitrary callable, the helper that applies a callable to a tuple and the tuple head/tail helpers forward arguments, value categories and results exactly.",
 ["inputs","programs"],
 "all callables and argument lists",
 "tests cover a few instantiations",
 [H+"detail/invoke.hpp",H+"detail/apply.hpp",H+"detail/tuple.hpp"], [("overload resolution at compile time",H+"detail/invoke.hpp")])
prop("C29", "Switch primitives of every other supported platform keep the same contract",
 "On every supported processor, calling convention and operating system: a new context starts at its function with the handle of the context it came from and the given data, on a stack aligned as that platform's functions expect and wholly inside the memory it was given; a resumed context finds every register a called function must preserve, its floating-point control words, its thread-local guard or thread-information-block fields and all of its frames as it left them, and receives handle and data as the result; an injected function runs on the target before its pending call returns, its result becomes the result of that call, and an exception it throws reaches that caller; a context function that returns ends the process with exit code 0; nothing outside the stacks involved is written, and a signal handler that runs on the stack between any two instructions disturbs nothing.",
 ["configurations","histories","schedules"],
 "all supported targets, every history of making, starting, resuming, injecting, dropping and finishing contexts, every interruption point",
 "tests run only on the build machine",
 ["src/asm"], [("one assembly triple per target","src/asm")],
 [("saved frame","registers and control state of a suspended context, at its stack pointer","src/asm")],
 ["registers and stack pointer at every start, resume and return","memory written","exit code"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
