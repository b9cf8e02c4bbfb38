NA = {}
CLAIMS = {
 "C09": ("provenance analysis of the symbolic output of save (interprocedural abstract interpretation of MIR)",
         "Each header secret is traced to one whole draw of the operating system generator; draws are pairwise distinct."),
 "C10": ("information-flow analysis over the symbolic output of save",
         "Everything outside the encryption term depends only on the public header settings; every write site is examined."),
 "C24": ("value analysis of the group state after each edit operation",
         "Symbolic post-state of add/remove compared with the specification on every alternative."),
 "C25": ("provenance analysis of identifiers in constructors",
         "Each UUID alternative is a generator call of the same constructor call."),
 "C34": ("abstract interpretation of the MIR of writer and reader, composed on re-laid-out documents: the tokens of the written document are transformed, the reader is evaluated on them and every restored field compared",
         "One obligation per field and layout; of the orders of elements the saved one and its reverse are decided."),
 "C33": ("value analysis of setters and getters on symbolic entries",
         "Post-state and result alternatives compared with the specification."),
 "C19": ("static effect analysis: who-may-call over all external callees, mutable statics, receiver mutability",
         "Every external callee in the crate's MIR is compared with the forbidden capabilities."),
 "C29": ("ownership lint over HIR/MIR: enumeration of unsafe constructs outside the borrow checker",
         "Reduces to the borrow checker; one known finding (IterMut::next)."),
 "C30": ("call-graph cycle analysis with constant-argument bounding by interprocedural abstract interpretation",
         "Known findings: the recursive group reader and writer and the recursive drop of Group."),
}

RT = "abstract interpretation of the MIR of writer and reader, composed: the reader is evaluated symbolically on the writer's output term and every restored field compared with the saved one"
CLAIMS.update({
 "C01": (RT, "One obligation per database setting (and per condition on its alternative); values symbolic."),
 "C02": (RT, "One obligation per group field; recursion of reader and writer matched as an induction step."),
 "C03": (RT, "One obligation per entry field; 10 known findings (StringKey::Other holding a well-known name)."),
 "C04": (RT, "Codec terms must cancel for every value; 10 known findings shared with C03."),
 "C05": (RT, "Every text read is settled for empty, blank and other content; no alternative may be lost."),
 "C06": ("symbolic walk over the composed document with cipher-position dataflow, and guard analysis of the reader",
         "Cipher positions of writer and reader are followed through repetitions, alternatives and recursion; arbitrary documents: attribute facts at every use of the cipher."),
 "C07": ("symbolic layout analysis of the writer's header, guard analysis of the reader's header loop, and composition of both",
         "Each header record is compared with the reader's guards; restored header settings compared with the saved ones."),
 "C11": ("guard analysis: facts that hold on every returning path of open", "Facts at the Ok exit imply the start bytes comparison over all 32 bytes."),
 "C13": ("term comparison of hashed bytes with written/consumed bytes, guard analysis, and composition with a forged hash",
         "Hash argument equals the header items; every Ok alternative on a forged file requires the genuine hash."),
})
CLAIMS["C12"] = ("guard analysis of the block loop (facts on every back edge and at every parser creation), and composition with forged, missing, repeated and reordered blocks",
    "Every alternative of the loop is an obligation; eight kinds of altered files are composed symbolically.")
CLAIMS["C08"] = ("term comparison: normal form of the key term of encryption and decryption (copy loops, hash input, counted block-encryption loops)",
    "Key terms of save and open equal the KDBX key derivation of the same header fields; constructors of composite keys checked the same way.")
CLAIMS["C27"] = ("composition of save and open with forged format identifiers, and guard analysis of the header loop",
    "Every alternative of open that returns a database must pin each forged identifier to an implemented one; save of a KeePass 1 database leaves the writer untouched.")
CLAIMS["C18"] = ("composition of KeyFile::save and open per file type, and guard analysis of KeyFile::open on arbitrary content",
    "Every alternative returns the same key and type; length facts decide the type on every returning path; constructors draw 32 bytes.")
CLAIMS["C31"] = ("abstract interpretation of the writers: structural analysis of the symbolic document",
    "Every tag, attribute, alternative and loop of the document term is an obligation; stack discipline across the recursion.")
CLAIMS["C32"] = ("guard analysis (dataflow of facts) at every document write",
    "Every alternative of every text and attribute needs the fact that this text has no forbidden character.")

P = "enumeration of every panic site (compiler assertions and documented panics of callees), each judged by interval and guard analysis in every calling context"
CLAIMS["C14"] = (P, "Foreign code is assumed to panic only where documented or listed; memory is assumed to suffice; stack depth is C30.")
CLAIMS["C15"] = (P, "As C14, for every other public function that reaches a panic site.")
CLAIMS["C28"] = ("interval analysis of every numeric conversion and operation in its calling contexts, and provenance analysis of every fixed-width number in the symbolic output of save",
                 "usize is taken to be 64 bits wide; loop counters are assumed not to exceed 2^62.")
CLAIMS["C16"] = ("path-sensitive ghost state (interprocedural dataflow over MIR): the failed operation on every path to a successful return",
                 "Every fallible operation in every calling context; parser errors are assumed to repeat (checked in the source of xml-rs).")
CLAIMS["C17"] = ("typestate-style value analysis of every Read/Write implementation, and enumeration of every partial transfer with loop-exit facts",
                 "std's read_exact, read_to_end and write_all and byteorder, xml-rs and flate2 are assumed to complete transfers.")
CLAIMS["C20"] = ("type analysis of the secret-holding fields, and information-flow analysis of everything that is formatted, printed, returned as an error or stored",
                 "The secure string's own Debug is assumed to hide its content; foreign error types are listed as carrying no input. One known finding (shared binaries).")
CLAIMS["C21"] = ("selection analysis: the returned list as a tree of walks, with the path facts under which each element is selected or passed by",
                 "Text is compared through the same case folding on both sides; the iterator's coverage is shown by induction (C22).")
CLAIMS["C22"] = ("induction over the iterators' transition terms (abstract interpretation of next), and selection analysis of every lookup",
                 "The queue invariant is decided per step from the compiled code; both mutabilities are matched with the same specification.")
CLAIMS["C23"] = ("induction over the reader's loops and over the tree: universally quantified facts about list elements",
                 "Each list of a group that open returns is shown, on every alternative, to hold only elements linked to the group's final UUID.")
CLAIMS["C26"] = ("ranking argument per loop over the abstract interpretation: progress on every way back to the head, with the chain of open XML elements as typestate of the parser",
                 "The parser's events from finite input are assumed to be finite, with matching tags; walks over groups rest on C21 and C22.")
