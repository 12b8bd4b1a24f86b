HEAD = r"""# How the properties of libdkim++ are decided

Everything here is static analysis: a check reads /repo's current source, never runs it, and reports a function, call site, path or
field. `./check ID` decides one property (exit 0 quiet, 1 violation, 2 the analysis itself is broken); `./check ID --thorough` does the
same with a larger path budget. The quick check is already exhaustive over the paths of the functions it analyses.

## Machinery

1. **Extractor** (`extract/extract.cpp`, a clang LibTooling program compiled on first use): parses every source file of /repo with the
   build's language options and writes the *resolved* syntax tree as JSON: callees, overloads, implicit conversions, implicit
   constructor calls, template instantiations, constants, types. Checks never look at text, names of local variables or layout.
2. **Dataflow engine** (`sa/engine.py`, `sa/terms.py`): a path-sensitive abstract interpreter over that tree. Values are terms; a
   state keeps a store, an interval set per term (`dom`) and a truth value per atomic condition (`facts`). Branches split states and
   infeasible ones are dropped by interval and congruence reasoning (no solver is involved). Functions of the repository are analysed
   inside their callers, with all exceptions; function objects, lambdas, `std::bind` and iterators are followed.
   Loops are summarised by fixpoint: a variable a turn can change is a fresh `phi` inside the loop and a `star` behind it; every way of
   going through the body once is kept as a *transition* (what it appends, consumes, sets, and under which condition), every way out
   as an *exit*. Quantification over all inputs is what the `phi`s are for: a transition holds for every turn.
3. **Library models** (`sa/models.py`): what strings, streams, containers, algorithms, smart pointers, OpenSSL, libsodium, libresolv and
   libc calls do to terms (`sub`, `find`, `lower`, `ch(stream, position)`, `digest`, `rsaverify` ...). Equal behaviour in different
   spelling gives the same term as far as possible (iterator loop, index loop, range loop, algorithm).
4. **Contracts** (`sa/contracts.py`): a function with a property of its own is used in its callers by contract; its own check decides
   that the body satisfies the contract. A function that no longer exists under its public name is analysed inline.
5. **Effects** (`sa/effects.py`): who writes which global, static or field.
6. **Checks** (`sa/checks/cNN.py`): each states its rules in words (below and in the evidence) and discharges one obligation per path,
   call site, transition, field or table entry.

**Verdicts.** An obligation is *held*, *violated*, or *undecided*. It is violated when the engine is precise about the terms involved
and the rule cannot be established; it is undecided when a term the verdict depends on is opaque (something the models do not cover) or
the state carries an imprecision note. Undecided obligations never raise an alarm; they are counted and listed in the evidence. On the
unchanged tree every check has 0 undecided obligations. Private helpers are not anchors: they may be renamed, split or merged. A public
function that disappears stops the check with exit 2, because there is nothing left to decide.

**Trusted base.** clang's front end, the extractor, the engine and the models. The models were compared by reading with the C++
standard, OpenSSL 3, libsodium and glibc. The engine is tested by mutation (below), not proved.

**Common assumptions.** No memory exhaustion; library calls behave as documented; digest update/final calls of OpenSSL do not fail;
the source is compiled for Linux/x86-64 with the options of CMakeLists.txt.

**Why this reaches what tests cannot.** A test samples inputs; a transition of a loop body or a path of a parser is decided for every
octet, every position of a read buffer's end, every combination of options and every order of calls, including error paths nothing in
the test suite takes.

**Cost.** 2 to 90 s per check, at most 2 GB. The first run in a fresh copy compiles the extractor (about 25 s; `setup_cmd` does it).
"""

DEC = {
"C01": "`CheckSignature` is analysed for every pair of signature and key. Oracle: on each normal return there must be exactly one verification primitive whose result is pinned to its documented success value, applied to the signature data of the signature, the *finished* digest, and the key of the key object; failures must carry `AR_FAIL`.",
"C02": "`GetSignature` and `CheckBodyHash` with the body routine by contract (C30, C31). Oracle: on every normal return the state knows that the stored hash and the computed digest have equal length and equal bytes, and the digest is that of the body canonicalized with this signature's settings.",
"C03": "All accepting paths of `CheckSignature`: each must know the three key-record conditions, whatever order they are tested in.",
"C04": "All returning paths of `Signature::Parse`: each must know that every mandatory tag is present (`b` non-empty).",
"C05": "All returning paths of `Signature::Parse`: the values of v, a, c, q are pinned to admitted constants, and each field is the constant of a fixed table for it. The table in the check is RFC 6376/8463 restricted to what the library claims.",
"C06": "All returning paths of `Signature::Parse`: the search over the signed headers is recognised in any form (algorithm, loop, flag) and must compare whole names in one letter case.",
"C07": "All returning paths: the equality/suffix conditions between the decoded identity's domain and d= are facts of the state.",
"C08": "Digits are decided as a language question on the conditions of the path (each octet in 0..9, length 1..76) plus the range test; dependence on `errno` is a read of a location not written before on that path.",
"C09": "Facts of the state at returns: expiry against `now`, instance in 1..50.",
"C10": "The loop over the header names is a transducer: cache keyed by lower-cased name, taken from the back, removed, one update with CRLF; nothing for missing names. Checked on every transition, with the construction of the cache (all headers but the checked one, in order).",
"C11": "Term equality: the last digest update is the canonicalization of the header with the span of b= (computed from the stored offset and length, extended over white space) removed.",
"C12": "The signer's header loop as a transducer with two outputs, the digest and h=; on each transition both or neither grow, by the text and the name of the same header.",
"C13": "Tables of the signer, verifier and parser are extracted path by path and joined: one digest and NID per algorithm, name→value→name is the identity.",
"C14": "The emitted header is a concatenation of literals and terms; it is split into tags, and each value compared with the option it must state, for every combination of options.",
"C15": "Every path that appends a signature knows that the primitive succeeded on the finished digest with a key of that signature.",
"C16": "Term equality between the signed text and the emitted text up to `b=`; line breaks of the emitted text checked literal by literal.",
"C17": "Dependence: no term of one turn of the loop over the signatures mentions a location an earlier turn changed, except the result it appends to.",
"C18": "Frame conditions: every public non-const operation of signer and validator, analysed on an object whose message has been read; every location below the object, its message and its arguments' pointees must be unchanged at every way out.",
"C19": "Effects of every library function on globals and statics, pointers kept in statics, references handed out; calls against POSIX's list of routines that need not be thread-safe.",
"C21": "Special members of classes that own a key or point into themselves: deleted or inaccessible. Compile-fail witnesses (clang -fsyntax-only against the current headers) confirm that copying, assigning and slicing do not build.",
"C22": "Every call with an output buffer and every subscript in the library, with interval and linear bounds from path conditions and loop transitions.",
"C23": "Every call of a primitive that reads a fixed or given number of bytes: the length known for the argument, the presence known for a key.",
"C24": "`Resolver::GetTXT`: every read through the answer pointer and every copy lies within answer..answer+len, by linear arithmetic over path conditions.",
"C25": "`Resolver::GetTXT` and `Validatory::GetPublicKey`: classification table over (query result, h_errno), name queried, resolver chosen.",
"C26": "Every public function of the library analysed from an unknown caller: types of exceptions that escape, and their result class by position.",
"C27": "All returning paths of `PublicKey::Parse`.",
"C28": "`TagList::Parse` as a transducer over the characters of the input, character classes by interval sets; the stored value is a span of the input trimmed at both ends.",
"C29": "`FilterHeader`: simple is the identity as a term; relaxed is the composition of lower-casing, a white-space transducer and trimming at the colon.",
"C30": "The loop over the octets of a read buffer is a transducer (one transition per path); compared with the definition; the outer loop must hand the state on unchanged, so the result cannot depend on where a buffer ends.",
"C31": "The same transducer with the limit: linear arithmetic on remaining, delivered and pending octets at each delivery and exit.",
"C32": "The encoder's table is evaluated over all 256 octets; the decoder's branches are interval sets; both are compared, with the escape digits as terms.",
"C33": "Each setter of SignatoryOptions and AdditionalSignaturesOptions: the store is reached only behind the validation; the validator itself is decided as a language over labels.",
"C34": "`Header::ParseLine` and `Message::ParseLine` on an arbitrary object: one step of the machine per path; the readers' loops.",
"C35": "The constructor of `Validatory`: the filter loop as a transducer.",
"C36": "All returning paths of `Signature::Parse`, split by header name: rules that may differ and rules that must not.",
"C37": "State at every return of `Reset()` on an arbitrary object, field by field, against the state after construction.",
"C39": "`EncodedWord::Decode` as a transducer over the input: each exit of the attempt at an encoded word either appends the decoded text or restores exactly the text read.",
"C41": "`ReadWhiteSpace` and its helpers: stream position and result related by a transducer.",
"C42": "`ReadAddressList` and its tokenizer as nested transducers over characters, with the end of input as a separate symbol.",
"C43": "`ValueList` as a transducer; spans of the input.",
"C44": "Every byte of the emitted header that comes from the message or the caller passes a filter or encoder whose output language excludes the characters that end a tag.",
"C45": "The option lists and the message names meet only in lower case: every comparison on the signer's path has both sides lower-cased.",
"C49": "Every public non-const member function of both option classes against every getter, which is evaluated in the state before and after: the getters of the table report the argument terms unchanged (a conversion that can lose a bit is a different term), all others the old terms. The constructor's exit state is probed: which location each getter reads, compared with what the first signature's getter reads.",
"C50": "The BIO calls on every path of the two functions, recorded as a ghost sequence (constructor, join, flags, writes, flush) and the copy loop as a transducer over reads; the argument is any octets, NUL included. What the filter computes is OpenSSL's (C47).",
"C20": "Typestate of every acquired object (OpenSSL, resolver, heap): acquired, owned, released; every public function that may acquire or release is analysed for each way the object can own its handles on entry (the paths of its destructor) and each aliasing of a key parameter with the key held; on every way out, exceptions included, the destructor is run on the exit state and the acquisitions and releases of each object tallied.",
"C38": "Ranking of every loop: on each transition round the loop a measure (stream position, iterator, index compared with a limit, length of a text, size of a collection) moves strictly and no other transition of the same cycle moves it back (lexicographic, decided by linear entailment over the facts of the path), or the transition is the last (no further turn starts with the values it leaves). Recursive calls hand on a shorter text, shown by the length of the element against the input read to make it, or a mode that does not lead back. Streams that cannot be re-positioned (seek failing without end of file) are outside.",
"C40": "`main` of the tool with the library by contract: every operation of the verifier and the signer succeeds or raises each of its errors; a ghost sequence records the steps with the objects they were handed, and every end of a turn, return and exit is compared with the text printed so far. The option tables are read from the tree and compared with the ways through the option loop and the usage text.",
}

FALSE = r"""## False alarms corrected while building

These were alarms where libdkim++ was right; the property or the machinery was corrected, nothing was listed as a finding.

- C09: an expiry tag that starts with digits and continues with other text is read by `strtol`; the property speaks of the number the value starts with.
- C13: the signer's name table can produce `ed25519-sha1`, which the parser refuses; the property says "reads back, if it knows it".
- C20: running out of memory between an acquisition and the hand-over to its owner is left aside.
- C23: key handles need to be found present before use; what happens otherwise is the concern of C01 and C15, not of C23.
- C24: the DNS header is read before the length of the answer is compared, inside a zeroed buffer of fixed size; the property speaks of the buffer for the header and of the answer for the rest.
- C26: `std::bad_alloc` and streams the caller set to throw are outside the property.
- C29: white space between a blank-only name and the colon is kept.
- C39: the first wording asked for delimiters the decoder does not need.
- C43: a trailing colon is tolerated by the parser; the property says so.
- Body canonicalization drops bare CR octets; this is documented in the code and stated in C30.
- Engine: white-space skipping before a loop, `find` results compared with the size, look-ahead characters and values kept in a loop by an equal copy produced alarms on refactored code; each was removed by a normal form, not by an exception.
"""

CAUGHT = {
    "c27-testing-flag-not-first": ["C27"],
    "c49-expiry-wraps": ["C49"],
    "c49-time-before-epoch": ["C49"],
    "c50-last-octet-of-next-read": ["C50"],
    "c01-signature-with-tail": ["C01"],
    "c02-hash-with-nul": ["C02"],
    "c03-flag-s-not-first": ["C03"],
    "c04-arc-without-selector": ["C04"],
    "c05-lone-c-value": ["C05"],
    "c06-name-starting-with-from": ["C06"],
    "c07-suffix-without-dot": ["C07"],
    "c08-limit-sign-in-low-half": ["C08"],
    "c09-expiry-beyond-2038": ["C09"],
    "c10-top-down-after-first": ["C10"],
    "c11-name-without-its-blanks": ["C11"],
    "c12-lost-colon-in-folded-list": ["C12"],
    "c13-body-mode-for-headers": ["C13"],
    "c14-relative-expiry": ["C14"],
    "c15-zero-is-no-failure": ["C15"],
    "c16-first-name-unfolded": ["C16"],
    "c17-first-signature-uses-shared-digest": ["C17"],
    "c18-stale-fail-bit": ["C18"],
    "c19-static-read-buffer": ["C19"],
    "c20-leak-when-signing-fails": ["C20"],
    "c21-copyable-options": ["C21"],
    "c22-signature-buffer": ["C22"],
    "c23-short-seed": ["C23"],
    "c24-string-ends-behind-record": ["C24"],
    "c25-internal-error-is-final": ["C25"],
    "c26-short-identity-domain": ["C26"],
    "c27-service-type-star-anywhere": ["C27"],
    "c28-duplicate-of-empty-tag": ["C28"],
    "c29-folded-twice": ["C29"],
    "c30-blank-run-across-read": ["C30"],
    "c31-limit-inside-last-crlf": ["C31"],
    "c32-del-passes-encoder": ["C32"],
    "c33-trailing-hyphen": ["C33"],
    "c34-blank-continuation-ends-header": ["C34"],
    "c35-name-prefix": ["C35"],
    "c36-arc-name-letter-case": ["C36"],
    "c37-limit-survives-reset": ["C37"],
    "c38-unfinished-encoding-never-ends": ["C38"],
    "c39-text-lost-at-end-of-charset": ["C39"],
    "c40-failed-signing-exits-zero": ["C40"],
    "c41-unfinished-fold": ["C41"],
    "c42-separator-in-angle-brackets": ["C42"],
    "c43-empty-entry-after-first": ["C43"],
    "c44-encode-when-needed": ["C44"],
    "c45-mixed-case-selection": ["C45"],
}

TAIL = r"""Besides the planted bugs, every check was mutated while it was built: 10 to 60 hand-written variants per property that compile, half of
them violating (each must be reported), half of them refactorings that keep the behaviour (each must stay quiet): helper extracted,
loop rewritten, conditions reordered or negated, early return, temporary introduced, algorithm for loop and loop for algorithm.
The variants are not kept; the planted bugs are.

## Limits

- The engine reasons per path with a budget; a function whose paths explode is reported as an analysis note and its obligations
  become undecided, not held.
- Values computed inside OpenSSL, libsodium, libresolv and libc are uninterpreted. What they compute is assumed, who is given which
  argument and what is done with the result is decided.
- Two paths are compared by term equality modulo normal forms. A rewriting that the normal forms do not cover ends undecided.
"""
