NOTE = {
 "C11": "The macro is proved as instantiated in this repository, not for arbitrary types. ",
 "C12": "libc file calls are contracts that may fail or fall short at any point. ",
 "C14": "argv is any list of strings; output is ghost text. ",
 "C25": "Termination and stack depth of the parser are not decided. ",
 "C26": "One token at an arbitrary place of an arbitrary line. ",
 "C29": "LoadAsmFile's tokens and statements are whatever Tokenize and Parse return (their contracts; C25, C26). ",
 "C30": "The step from 'every order is a dependency order' and 'each pass runs every module once in that order' to equal output is an induction outside the solver, written in DESIGN.md. ",
 "C31": "Ownership of bytes is ghost state on the sink's contract. ",
 "C33": "Partial correctness: termination of the search is not decided. ",
}
NA = {
 "C32": "Disassembler::Disassemble's work list over whole-program history has no contract here; the parts below it (decoding C15/C18, merging C22, flag effects C24) are decided, nothing is claimed for the fixed point itself",
}
