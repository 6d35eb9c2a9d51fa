# property -> (technique, level_note[, level]) of MANIFEST.json
CLAIMS = {
    "C01": ("bounded-exhaustive enumeration of change and commit histories on the real library, comparing what is shown before the commit with what every later open shows",
            "Every sequence of the 16-change alphabet up to the stated depth with every placement of commits, plus all boundary sizes of strings and pools listed in DESIGN.md; "
            "trusts the snapshot (content.hpp) to show everything a query can."),
    "C02": ("bounded-exhaustive enumeration of histories without commit on the real library, monitored through file bytes and directory content",
            "Every sequence of the alphabet up to the stated depth in every open mode; bytes of the file compared, so nothing depends on a model."),
    "C03": ("exhaustive crash-point exploration of the real library under a system-call monitor (kill before every file system call, torn writes)",
            "Process crashes at every file system call and torn writes of the listed scenarios; crashes of the machine (lost page cache) are not modelled."),
    "C04": ("exhaustive fault injection on the real library: every file system call of every scenario fails or is short, once or for good",
            "Failures of file system calls only (not of memory allocation), for the listed scenarios; the run without faults is the reference."),
    "C05": ("bounded-exhaustive enumeration of WHERE conditions and row valuations on the real library, against a reference evaluator",
            "Holds for every condition of the grammar in DESIGN.md up to the stated number of comparisons, over the full product of the value domain; "
            "trusts the evaluator in c05_where.cpp and the column values chosen to represent their order classes."),
    "C06": ("bounded-exhaustive enumeration of SELECT statements over all small table contents on the real library, against a reference relational evaluator",
            "Every query of the grammar in DESIGN.md over every table content of the domain; trusts the evaluator in c06_select.cpp."),
    "C07": ("bounded-exhaustive enumeration of statement sequences on the real library, against a reference model of the tables",
            "Every sequence of the alphabet up to the stated depth, each step compared in full; trusts the model in c07_dml.cpp and that the alphabet's "
            "values represent their classes."),
    "C08": ("bounded-exhaustive enumeration of schema statement sequences on the real library, against a reference model of catalog, holds and temporary parts",
            "Every sequence of the alphabet up to the stated depth, the whole catalog compared after each step; trusts the model in c08_schema.cpp."),
    "C09": ("bounded-exhaustive exploration of change histories on the real library, every committed file decoded by an independent reader",
            "Every history of the alphabet up to the stated depth and every listed boundary value; trusts the reader in msiread.hpp, written from the format alone."),
    'C10': ('bounded-exhaustive exploration of stream and storage histories on the real library, against a model of names and bytes and an independent reader of the file',
            'Every history of the alphabet up to the stated depth, every listed name and length; trusts the model in c10_streams.cpp and the reader in msiread.hpp.'),
    'C11': ('bounded-exhaustive enumeration of tables, values and archives, exported and imported by the real library, against the source table or an independent archive writer',
            'Every listed table shape, string, byte, codepage and property subset; trusts the archive writer in c11_idt.cpp; bytes 0x10, 0x11, 0x19 inside values stand for tab and line ends in the format and are left out.'),
    'C12': ('bounded-exhaustive exploration of operation sequences on the real library against a model of the property sets, with an independent reader and writer of the stored form',
            'Every sequence of the alphabet up to the stated depth, every listed value at every property; the 2-byte codepage property only within 16 bits.'),
    'C13': ('bounded-exhaustive enumeration of pairs of databases merged by the real library, against a reference model of the merge',
            'Every pair of the listed contents, shapes, names and strings and every history up to the stated depth; a reference that lacks a NOT NULL column of the target is left out; trusts the model in c13_merge.cpp.'),
    'C14': ('bounded-exhaustive enumeration of database pairs and histories: transforms from an independent writer applied by the real library, compared with the target',
            'the independent MSI/MST writer and reader in harness/; the documented transform format'),
    'C15': ('bounded-exhaustive exploration of operation sequences on real records against a model of the fields',
            'Every sequence of the alphabet up to the stated depth and every listed text, size and length; trusts the model in c15_record.cpp.'),
    'C16': ('bounded-exhaustive exploration of interleavings of query calls, changes, commits and releases on the real library under a memory checker, each result compared with a fresh query',
            'Every interleaving of the alphabet up to the stated depth; after a change by others any row the tables had since counts as correct; trusts AddressSanitizer to see reads of released memory.'),
    'C17': ('bounded-exhaustive fault enumeration: every listed damage of a package from an independent writer, opened, read, changed and committed by the real library under memory checkers',
            'Every listed damage of one small package; AddressSanitizer and UBSan in libmsi (libgsf itself is not instrumented); a CPU limit stands for termination.'),
    'C18': ('bounded-exhaustive enumeration of query texts (token sequences in statement frames, single-character edits, short byte strings, layouts, sizes) on the real front end under memory checkers, against an independent acceptor of the grammar',
            "Every listed text; trusts the acceptor in c18_sql.cpp, which leaves open what the grammar's documentation leaves open (counted in the evidence)."),
    'C19': ('bounded-exhaustive fault enumeration: every listed damage of archives and transforms from independent writers, imported or applied by the real library under memory checkers, success compared with the archive',
            'Every listed damage; a success is compared with an independent reading of the archive where that is unambiguous (counted); trusts AddressSanitizer and UBSan in libmsi.'),
    'C20': ('exhaustive enumeration of all 2-byte integers and 4-byte boundary values over every route into the database, executed on the real library',
            "the harness' independent file reader (msiread.hpp)"),
    'C21': ('exhaustive enumeration of command lines and SQL scripts up to a length, run with the built tool against the same edits made singly through the library',
            'libmsi itself as the meaning of one edit (C01-C20), the independent reader'),
    'C22': ('exhaustive enumeration of packages by an independent writer, shown and exported by the built msiinfo and read back',
            "the harness' package writer (msiwrite.hpp); libmsi for reading the re-imported table"),
    'C23': ('exhaustive enumeration of packages with plain and hostile names, dumped and extracted by the built tools as an unprivileged user in a private tree that is compared before and after',
            'the kernel file permissions keep an escaped write inside the private tree; gcab is trusted to refuse absolute paths itself only where the comparison confirms it'),
    'C24': ('exhaustive enumeration of directive sequences, conditions, expansions and include graphs, preprocessed by the built wixl -E and compared with an interpreter of the language',
            'libxml2 reads the output for the comparison'),
    'C25': ('exhaustive enumeration of action sets with all placements among them and standard actions, each built by the real wixl in every order of writing; tables compared with the requests, refusals with an exact feasibility test',
            "the harness' list of standard numbers and conditions (Windows Installer documentation) and its reader of the database format"),
    'C26': ('exhaustive enumeration of wixl sources (trees, placements, media, features, content, options, broken references) built twice by the real program; tables and cabinets read by readers of their own and compared with the source',
            'the oracle rows of c26_package.cpp; cabinet and file readers (cab.hpp, msiread.hpp) written from the formats'),
    'C27': ('exhaustive enumeration of path lists, special names and option combinations through the real wixl-heat and wixl; fragment read by libxml2, package by a reader of its own, compared with the list and the files on disk',
            'libxml2 as XML reader; path rules of the oracle'),
    'C28': ('exhaustive enumeration of pairs of packages, modes and diff options through the real msidiff in both directions, as an unprivileged user in a private tree; its output is read back and compared with the difference of the two models; a scripted clock ages the extraction',
            "GNU diff's output format as read by c28_diff.cpp"),
    'C29': ('exhaustive enumeration of the attribute combinations of every element, built by the real wixl, rows compared with the documented ones',
            'bounded attribute values; oracle transcribes the WiX and MSI references'),
    'C30': ('bounded-exhaustive enumeration of operation sequences, handle uses, statement mutations, commit size limits and damaged files on the real library, each repeated under a count of allocated bytes and descriptors',
            "the sanitizer's allocation counter; growth within the first 13 repetitions is not judged"),
    'C31': ('bounded-exhaustive enumeration of sequences of public calls, open-query histories and resource limits on the real library, each run twice - with and without an error argument - under a monitor of results, reasons and content',
            "the harness's table of calls that must succeed or fail; faults are limits on descriptors and file sizes"),
}
NOT_APPLICABLE = {}
