"""The properties of the command line tool."""


def add(prop):
    prop("C11", "Files the tool writes are never torn or lost",
         "When 'thema lineage fix' rewrites a lineage or 'lineage gen gotypes' and 'gen gobindings' write Go files, then at every instant - whatever system call fails, the disk fills up, the process is killed or the power fails - the target file is either exactly what it was before or the complete new content, and no other file is changed; permissions and symbolic links are preserved and a command that fails leaves nothing behind. A command that reports success has written the complete content, and running the command again after any failure does the work.",
         ["crash_points", "fault_sequences"], "every fault kind and a crash at every system call of the command, singly and in pairs, and power loss after any prefix of the calls, for generated lineages and trees",
         "Tests run the commands' libraries on healthy disks and never kill them; a torn file needs a crash or error between two particular system calls.",
         ["cmd/thema/write.go", "cmd/thema/lineage_fix.go", "cmd/thema/lineage_subgen.go", "encoding/cue/rewrite.go"],
         [("temporary file, sync, rename", "cmd/thema/write.go: writeFile"), ("callers", "cmd/thema/lineage_fix.go: do; cmd/thema/lineage_subgen.go: runGoTypes, runGoBindings")],
         [("the output file", "old or new content, nothing else", "cmd/thema/write.go")], ["the file tree after the process ended, the log of its system calls"])
    prop("C12", "The tool's exit status and output tell the truth",
         "A 'thema' command that exits with status 0 has printed exactly the complete, correct result - the version that validated, the translation, hydrated or dehydrated data, the generated document or code, the new lineage - and one whose data or lineage is invalid, whose input cannot be read completely, or whose result cannot be delivered exits non-zero. Calls that are interrupted or return less than asked for change nothing, quiet commands are quiet, and the same command on the same files always prints the same.",
         ["fault_sequences", "inputs"], "every fault kind at every system call on the files, standard input and standard output of generated commands, lineages and data",
         "There are no tests of the tool's commands; failing and interrupted system calls are never injected.",
         ["cmd/thema/data.go", "cmd/thema/load.go", "cmd/thema/lineage_subgen.go", "cmd/thema/lineage_init.go", "cmd/thema/main.go"],
         [("reading of data from file or standard input", "cmd/thema/load.go, cmd/thema/data.go"), ("reporting of errors as exit status", "cmd/thema/main.go")],
         [], ["exit status, standard output and error, file tree"])


CHECKS = {
    "C11": ("crashes and system call faults at counted calls, power-loss model over the call log, old-or-new oracle and retry",
            "sampled trees, commands and fault plans; contents not synced when power fails are taken as lost"),
    "C12": ("system call faults at counted calls, reference model of the commands' results",
            "sampled trees, commands, data and fault plans; results predicted by the reference model, generated code by the library"),
}
