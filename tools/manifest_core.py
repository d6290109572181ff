RUNS = ("TLA+ machine of WebAssembly under an analysis (Machine, Alu, Codes): recorded runs of really instrumented modules on an engine are "
        "validated by TLC; programs enumerated by TLC (Bodies) and randomly generated")
BASE = ("Every run of the real instrument() output recorded by harness/core is validated step by step by TLC against spec/Machine.tla, over all "
        "well-typed bodies up to a bound from several alphabets (enumerated by TLC from spec/Bodies.tla; sampled in the quick tier) and random modules. "
        "Corrupted histories must be rejected (self-test). Not a proof for all programs. Trusts wasmtime, TLC, and the stand-ins in /verif/shims for the "
        "crates that cannot be fetched offline (wasabi_wasm; the merge tool). ")
CORE = {
    "P09": (RUNS + "; original and instrumented runs walked in step (Agree)", BASE + "A run that is cut by the recorder's limits is compared up to there."),
    "P10": (RUNS, BASE + "Forwarding analysis, all functions selected."),
    "P11": (RUNS, BASE + "Only the locations (function and instruction index) decide here; indices are those of the original module."),
    "P12": (RUNS, BASE + "The analysis answers with arbitrary values; accesses through the exported access functions are part of the record."),
    "P13": (RUNS + "; full and partial selections walked in step (Agree); bodies of functions that are not selected compared (Iface)", BASE),
    "P14": (RUNS, BASE + "The analysis reads and writes argument and result buffers and calls the base function any number of times."),
    "P15": ("TLA+ specification of an instrumented module's interface (Iface, Hooks) evaluated by TLC on the parsed original and instrumented modules; both instantiated on an engine",
            "Validity is judged by wasmparser and wasmtime; imports, exports, memories, tables, globals, data, elements and start by TLC. Sampled programs, hooks and selections."),
    "P16": ("TLA+ specification of nesting (Nesting): all bodies up to a bound enumerated by TLC (NestingMC), converted by the real code, both conversions' observations validated by TLC (NestingTrace)",
            "The real flat-to-nested and nested-to-flat conversions (untyped and typed) run on every sequence of block tokens up to a bound, well nested or not, and on random real bodies; what came back is validated by TLC. Inferred types of whole constructs are not compared."),
    "P17": (RUNS + "; the analysis either scripted or the repository's own Rust library compiled to WebAssembly",
            BASE + "Every operator and access alone with boundary operands, and inside random programs. Static offsets of 2^31 and more are left out where the compiled Rust analysis library decodes them."),
 "P18": ("TLA+ specification of call buffers (StackLib) and of their bump-pointer implementation, model-checked over all histories up to a length (StackLibMC); those and random histories replayed in the real generated libraries, every answer validated by TLC (StackLibTrace)",
         "Libraries generated by the real code for some 70 signatures at once are run on an engine: the WebAssembly one as it is, the Rust one compiled with rustc (with a layout-checking stand-in for wee_alloc), the AssemblyScript one through a small translator (lib/ascript.py) since its compiler is not available. Signatures and histories are sampled beyond the enumerated ones."),
 "P19": ("TLA+ specification of which functions can reach shared state (Purity), its two formulations model-checked against each other over all small call graphs (PurityMC); modules built from those graphs and from random larger ones analysed by the real code, every report and every recorded run of the reported functions validated by TLC (PurityTrace)",
         "All call graphs of up to three functions (sampled in the quick tier), every shared-state instruction alone in every kind of construct, random graphs of up to 60 functions. Functions in mutual recursion may or may not be reported. Trusts wasmtime and the stand-in for wasabi_wasm."),
 "P20": ("TLA+ specification of the pipeline's stages and failures (Pipeline), model-checked over every kind of configuration and every set of failing stages (PipelineMC); each replayed in the real Wastrumenter with recording compilers and merge tool, every request and result validated by TLC (PipelineTrace, with IfaceRules for the instrumented part)",
         "Compilers that record and fail on demand, histories of several uses of one pipeline object, random programs. The merge tool is a stand-in that keeps what it is given; what input is refused depends on the stand-in for wasabi_wasm."),
 "P21": ("TLA+ specification of the interface owed for a set of hooks and of the functions generated guest code exports (Interface), model-checked over all small requests and aspect programs (InterfaceMC); each replayed in the real generators, whose interfaces, parsed guest code and carried guest texts are validated by TLC (InterfaceTrace)",
         "All single hooks, pairs and their complements, random sets; aspect programs of every combination of up to two (quick) or three (thorough) definitions and random longer ones. Guest code is parsed with the TypeScript parser, not compiled: no AssemblyScript compiler is at hand. Programs with a specialised apply are a known finding. An aspect program with the same kind of advice twice is left open."),
 "P22": (RUNS, BASE + "Branch tables of every size up to 33 with indices at and around every boundary."),
 "P23": ("TLA+ specification of the stages of the command-line tools, what each may ask of its compilers and the merge tool, and the report owed for a call graph (Cli, on Pipeline and Purity), model-checked over all failing stages (CliMC); each combination replayed through the real executables with arguments in every form, outputs to files and standard output, and recorded requests, outputs and exit statuses validated by TLC (CliTrace)",
         "Every set of failing stages with and without interception, random hooks, targets and orders of arguments, output files that can only be partly written (size limit, short writes), closed outputs. The command-line parser is the real clap; clio, the Rust-to-Wasm compiler and the merge tool are stand-ins that record what they are asked."),
 "P24": ("TLA+ specification of what advice sees and does through its formals (Aspect), model-checked over all short histories of operations on small signatures (AspectMC); those and long random histories are compiled as aspect programs, the real generated guest code is run, and what it observed, stored, called and answered is validated by TLC (AspectTrace)",
         "All histories of up to three (quick) or four (thorough) operations on six signatures, sampled for replay; every field of every formal with boundary values; random histories of up to 40 operations; programs of single, few and all kinds of advice. Guest code is run through a translation from AssemblyScript to JavaScript, as no AssemblyScript compiler is at hand; code the translation cannot read is skipped and counted."),
 "P25": ("TLA+ specification of the tallies of the shipped analyses over histories of events (Reports), model-checked for agreement between them over all short histories (ReportsMC); the real analyses, compiled to WebAssembly, are attached to generated programs by the real instrumentation, asked every question after the run, and TLC validates answers (ReportsTrace), the run (Machine) and the comparison with the uninstrumented run (Agree)",
         "All 18 shipped analyses on 52 (quick) or several hundred (thorough) random programs each, over a million answers. Needs the installed wasm32 target; crates that are not at hand are replaced by stand-ins. The taint analysis is checked for transparency only."),
}
