#!/usr/bin/env python3
"""Generates /verif/properties.jsonl. Each entry: id, title, statement, over, qtext, why, files, mech, state, observe."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement)
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
V='src/Validatory.cpp';S='src/Signature.cpp';G='src/Signatory.cpp';O='src/SignatoryOptions.cpp';K='src/PublicKey.cpp';C='src/Canonicalization.cpp';T='src/TagList.cpp';Z='src/Tokenizer.cpp';M='src/MailParser.cpp';R='src/Resolver.cpp';Q='src/QuotedPrintable.cpp';E='src/EncodedWord.cpp';U='src/Util.cpp';B='src/Base64.cpp';X='src/Exception.hpp';L='tools/src/main.cpp'
ONE='The tests verify a handful of good messages made by the library itself with one RSA key; no test feeds a bad signature, so '

p('C01','A signature is accepted only if the cryptographic check accepted it',
 'Checking a header signature returns normally only when the primitive named by the signature algorithm (RSA verification or Ed25519 detached verification) reported success for exactly the signature bytes of the signature header, the complete finished header digest, and the key material of the supplied public key. Every other result of the primitive, including an internal error code, ends in a permanent error whose authentication result is "fail".',
 ['inputs','fault_sequences'],'every message, signature header, key record and every return code of the crypto primitives',
 ONE+'an accepting path that skips or misreads the primitive would pass them all.',[V],
 [('Validatory::CheckSignature calls RSA_verify / crypto_sign_verify_detached and throws unless they succeed',V)],['Validatory::CheckSignature return / exception'])
p('C02','The body hash must match in full before a signature is handed out',
 'Obtaining a parsed signature from a message returns normally only after the body of that message, canonicalized with the mode and length limit stated in that same signature, was digested with its hash algorithm and the digest equals the bh= value in length and in every byte. A mismatch is a permanent error whose authentication result is "fail".',
 ['inputs'],'every message body and every signature header',
 ONE+'a truncated or skipped comparison is invisible to them.',[V],
 [('Validatory::GetSignature parses, then Validatory::CheckBodyHash compares',V)],['Validatory::GetSignature','Validatory::CheckBodyHash'])
p('C03','A key record can veto: hash list, key type and strict-domain flag',
 'A signature check succeeds only if the hash algorithm is in the key record\'s list when the record restricts hashes, the key type equals the signature\'s key type, and, for ordinary DKIM signatures when the key carries flag "s", the signing domain equals the identity domain. Otherwise it is a permanent error, and these checks apply on every path to acceptance.',
 ['inputs'],'every combination of signature tags and key record',
 'Tests use one key record without h= and a signature without i=, so none of the vetoes is ever exercised.',[V],
 [('sanity checks at the head of Validatory::CheckSignature',V)],['Validatory::CheckSignature'])
p('C04','Signatures missing a mandatory tag are rejected',
 'Parsing a signature header returns normally only if the tags a, b (non-empty), bh, d, h and s are present, and additionally v for DKIM and i for ARC message signatures. A missing one is a permanent error.',
 ['inputs'],'every signature header','Tests never parse a signature header lacking a tag.',[S],
 [('Signature::Parse GetTag guards',S)],['Signature::Parse'])
p('C05','Only understood tag values are accepted and each selects its meaning',
 'A signature is accepted only with v exactly "1" (DKIM), a exactly one of rsa-sha256, rsa-sha1 or ed25519-sha256, c built from simple/relaxed for header and body (body defaulting to simple), and q exactly "dns/txt" when present; every other value is a permanent error. The algorithm, canonicalization and query settings the parsed signature reports are exactly those the accepted values name, with rsa-sha256-independent defaults simple/simple and dns/txt when c or q is absent.',
 ['inputs'],'every signature header','Tests only see rsa-sha256 and simple/simple.',[S],
 [('value tables in Signature::Parse',S)],['Signature::Parse','Signature getters'])
p('C06','A signature that does not cover From is rejected',
 'Parsing a signature header returns normally only if some entry of its signed-header list is the header name "from", compared as a whole and without regard to letter case.',
 ['inputs'],'every h= list','No test parses a signature whose h= lacks From.',[S],[('signedFrom loop in Signature::Parse',S)],['Signature::Parse'])
p('C07','The identity domain must be the signing domain or below it',
 'For DKIM signatures carrying i=, parsing returns normally only if the decoded identity has an "@" and the part after the first "@" equals, ignoring case, the signing domain or ends in a dot followed by the signing domain. Without i= the identity domain is the signing domain and the local part is empty.',
 ['inputs'],'every i= and d= pair','No test has an i= tag.',[S],[('i= handling in Signature::Parse',S)],['Signature::GetMailDomain','Signature::Parse'])
p('C08','Body length tag: strict digits, range checked, history independent',
 'A signature with l= is accepted only if the value is 1 to 76 decimal digits that fit the size type without becoming negative; then the limit is on and equals that number, and without l= there is no limit. The outcome depends only on the header text, never on what earlier calls left behind (such as a stale error number).',
 ['inputs','histories'],'every l= value and every preceding call history',
 'The only l= value a test parses is 0, in a fresh process.',[S],[('l= handling in Signature::Parse',S)],['Signature::GetBodySize','Signature::GetBodySizeLimit'])
p('C09','Expired signatures and out-of-range ARC instances are rejected',
 'A signature with x= is accepted only if the decimal number its value starts with is not below the current time. An ARC message signature is accepted only if the instance number it reports is from 1 to 50.',
 ['inputs'],'every x= / i= value','No test has x= or an ARC header.',[S],[('x= and ARC i= handling in Signature::Parse',S)],['Signature::Parse'])
p('C10','The verifier hashes the signed headers in order, bottom-up, once each',
 'The header digest checked by the verifier consists, for each name in the signed-header list in list order, of the canonicalized bottom-most not yet used header field with that name (names compared ignoring case) followed by CRLF, and of nothing for a name with no unused instance left. No instance is used twice, and the signature header being checked is never itself one of them.',
 ['inputs'],'every message and every h= list, including repeated and absent names',
 'Test messages have one header and no repeated names.',[V],[('header cache and pop loop in Validatory::CheckSignature',V)],['data fed to the header digest'])
p('C11','The signature header is hashed last, emptied of its b= value',
 'After the listed headers the verifier hashes the canonicalized text of the very signature header being checked with the b= value, including all white space around it, removed and everything else kept, and without a trailing CRLF. Nothing is hashed after it.',
 ['inputs'],'every layout of the signature header','Tests only see the layout the signer itself produces.',[V,T],[('b removal in Validatory::CheckSignature',V),('value offset in TagList::Parse',T)],['data fed to the header digest'])
p('C12','The signer lists exactly the headers it hashed, in the order hashed',
 'When signing, header fields are taken from the bottom of the message up, and every field whose canonicalized text plus CRLF enters the header digest contributes its lower-cased name to the h= list at the same position, and no other does. The configured oversign names, lower-cased, follow after all of them and contribute nothing to the digest.',
 ['inputs','configurations'],'every message and header selection','Tests sign one-header messages with default options.',[G],[('header loop in Signatory::CreateSignature',G)],['digest data and emitted h='])
p('C13','Signer and verifier agree on every algorithm and mode table',
 'For each hash algorithm the signer and the verifier use the same digest function for body and header and hand the matching digest identifier to RSA, and for each algorithm pair and canonicalization mode the name the signer writes is one the parser reads back, if it knows it, as that same value. Both sides canonicalize headers with the header mode and the body with the body mode, limit flag and length of the signature at hand.',
 ['configurations','inputs'],'all combinations of hash, key type and canonicalization modes',
 'Tests exercise only rsa-sha256 with simple/simple.',[G,V,S,U],[('enum switches on both sides',G),('enum switches on both sides',V),('name tables',U)],['emitted tags, digests used'])
p('C14','The emitted signature header states what was actually used',
 'The emitted header is one tag list with no tag name repeated, in which d and s are the domain and selector of the signature being made, a names the key type that produced that signature and the configured hash, c names the configured header and body modes, bh is the base64 body digest, and l, t, x and i appear exactly when configured (i as the ARC instance for ARC headers, as the encoded identity otherwise) with the configured values. An ARC instance selects the ARC header name and omits v, otherwise the DKIM header name with v=1 is used.',
 ['configurations'],'all option combinations, including several signatures with different key types',
 'Tests never inspect the emitted text and use one option set.',[G,U],[('header assembly in Signatory::CreateSignature',G)],['CreateSignature result'])
p('C15','No signature is emitted unless the signing primitive succeeded',
 'Creating a signature returns text only if, for every requested signature, the signing primitive reported success on the complete header digest with the private key of that signature; a missing or wrongly sized key, or any failure of the primitive, is a permanent error instead.',
 ['fault_sequences','configurations'],'all key configurations and all primitive return codes',
 'Tests only sign with a valid RSA key.',[G],[('RSA_sign / crypto_sign_detached result checks',G)],['CreateSignature result / exception'])
p('C16','The signed digest covers exactly the emitted header text',
 'The header digest that is signed ends with the canonicalization of the whole emitted header as it stands up to and including "b=", and after that only the base64 signature, folded with CRLF and white space, is appended. Every line break inside the emitted header is CRLF followed by white space.',
 ['inputs','configurations'],'all options and header lists of any length','Tests never reach folding of the h= list, and only one b= length.',[G],[('CreateSignature assembly order',G)],['CreateSignature result, digest data'])
p('C17','Several signatures made together do not influence each other',
 'When several signatures are requested at once, each is computed over the digest of the signed message headers plus its own header only: text, digest state and keys of one signature never enter another, and all are emitted separated by CRLF.',
 ['configurations'],'every number and mix of additional signatures','No test adds an additional signature.',[G],[('per-signature copy of the header digest',G)],['CreateSignature result, digest data'])
p('C18','Signing and verifying can be repeated on the same object',
 'Neither creating a signature nor checking one consumes the message: a second call on the same signer or validator works on the same header list and the same body as the first, whatever was called before. The parsed message is filled once and not changed afterwards.',
 ['histories'],'every sequence of calls on one Signatory or Validatory','Tests call each operation once per object (one verification twice).',[G,V,M],[('parse loop guards',G),('stream repositioning in CanonicalizationBody',C)],['results of repeated calls'])
p('C19','No hidden shared mutable state',
 'Independent objects can be used from different threads: no library function writes to a global or function-static object, and none uses a C library routine that keeps hidden static state. The library keeps no cache or counter shared between objects.',
 ['schedules'],'all interleavings of calls on distinct objects','Tests are single threaded.',['src/'],[('absence of writable globals; res_nquery with per-object state',R)],['whole library'])
p('C20','Every acquired resource is released exactly once on every path',
 'Every crypto, I/O or heap object a library function acquires is released exactly once, or handed to exactly one owner that releases it, on every way out of the function, including error exits. Replacing an owned private key releases the old one, and a key the caller keeps ownership of is never released (running out of memory aside).',
 ['inputs','fault_sequences','histories'],'all paths including error paths, and all setter sequences','Tests do not run error paths or leak checks.',[B,K,O,G,V,U,R],[('explicit free calls, unique_ptr deleters, destructors',K)],['heap'])
p('C21','Objects owning keys cannot be duplicated into double ownership',
 'No program can copy or assign an object that owns an OpenSSL key (public key record, per-signature options) or that holds pointers into itself (signing options), so that two objects would free the same key or one would point into another.',
 ['programs'],'every client program','Tests never copy these objects; the failing programs must not compile at all.',['src/PublicKey.hpp','src/SignatoryOptions.hpp'],[('deleted or private copy operations','src/PublicKey.hpp')],['compilation of client code'])
p('C22','Writes into fixed-size buffers are bounded by the buffer',
 'Every call that fills a caller-provided buffer is given a length no larger than that buffer, and digest and signature outputs go to buffers at least as large as the primitive can write. Every subscripted element lies within its array or string.',
 ['inputs'],'all inputs and all buffer-writing call sites','Overruns need inputs larger than any test uses.',['src/'],[('sizeof / EVP_MAX_MD_SIZE / RSA_size / crypto_sign_BYTES sizing',G)],['memory'])
p('C23','Fixed-length reads of keys and signatures are length checked',
 'Signature bytes, keys and seeds of variable length are passed to a primitive that reads a fixed number of bytes only after their length was found to be at least that number, a primitive told how many bytes to read gets at least that many, and key handles are passed only after they were found present.',
 ['inputs','configurations'],'every b= and p= length, every key configuration','Tests use RSA only.',[V,G,O,K],[('size checks before crypto_sign_* calls',V)],['memory reads'])
p('C24','DNS answers are parsed within the bytes received',
 'While extracting text records from a DNS answer, every read behind the fixed header and every copied string lies within the answer as received, and the fixed header within the buffer, for any answer content, including truncated or hostile ones.',
 ['inputs'],'every byte string a name server can return','No test covers the resolver.',[R],[('bounds checks in Resolver::GetTXT',R)],['memory reads'])
p('C25','Key lookup: right query, and failures classified as retryable or final',
 'The key is looked up at <selector>._domainkey.<domain> of the signature, with the custom resolver when one is set and the system resolver otherwise; a failed lookup is a temporary error and an empty answer a permanent one, and the record is parsed only from a successful non-empty lookup. The system resolver reports success with no data exactly for the no-data, host-not-found and non-recoverable conditions and failure for try-again.',
 ['inputs','fault_sequences'],'every resolver outcome','No test performs a lookup.',[V,R],[('Validatory::GetPublicKey',V),('Resolver::GetTXT error mapping',R)],['exceptions of GetPublicKey'])
p('C26','Failures surface as typed errors with the right result class',
 'Running out of memory and errors of streams set to throw aside, the library raises only its permanent and temporary error types; temporary errors come only from key lookup, the class "fail" is used only for a body hash or signature mismatch, and every class maps to its own authentication-result word identically in both error types.',
 ['inputs','fault_sequences'],'every failing path','Tests check at most that a runtime_error is thrown.',['src/',X],[('throw sites',S),('getAuthenticationResult',X)],['exceptions'])
p('C27','Key records: version, type, revocation and restrictions are enforced',
 'A key record is accepted only if v is absent or exactly DKIM1, k is absent (rsa) or exactly rsa or ed25519, p is present, non-empty and decodes to a key of the stated type (an RSA key, or exactly 32 bytes), h when present names at least one known hash and s when present names email or "*". The accepted key reports exactly the known hashes listed in h, the type from k, and the flags from t; it is in testing mode exactly when y is among its flags.',
 ['inputs'],'every key record text','Tests parse one good record.',[K],[('PublicKey::Parse',K)],['PublicKey::Parse, getters'])
p('C28','Tag lists follow the grammar and keep values intact',
 'Parsing a tag list accepts only names made of letters, digits and underscore (the first not an underscore) followed by "=", rejects repeated names and any value character that is neither printable ASCII other than ";" nor white space, and stores each value with surrounding white space trimmed and everything between kept in order, together with the position it starts at. Each pair up to the end of input is stored under its own name, and nothing well-formed is refused.',
 ['inputs'],'every tag-list text','A dozen samples.',[T],[('TagList::Parse',T)],['TagList::GetTag'])
p('C29','Header canonicalization: simple is identity, relaxed normalizes',
 'Simple header canonicalization returns its input unchanged. Relaxed lower-cases exactly the part before the first colon, turns every run of folding white space between other characters into one space, drops such runs at the end, after the first colon and between a non-blank name and the colon, and keeps every other character unchanged and in order.',
 ['inputs'],'every header text','Seven samples.',[C],[('CanonicalizationHeader::FilterHeader',C)],['FilterHeader result'])
p('C30','Body canonicalization is character-exact and independent of chunking',
 'Body canonicalization ignores CR octets, keeps every other octet of every line, ends lines with CRLF, drops empty lines at the end, in relaxed mode reduces white-space runs inside a line to one space and drops them at line ends, and ends with one CRLF unless the relaxed body is empty. The result does not depend on where internal read buffers end.',
 ['inputs'],'bodies of every content and size, every alignment to the internal buffer','All test bodies fit in one buffer.',[C],[('CanonicalizationBody loop',C)],['bytes passed to the sink'])
p('C31','The body length limit is honoured exactly',
 'With a length limit, the bytes delivered are exactly the first limit bytes of the canonical body, never more, and the result tells whether the body was long enough; without a limit all bytes are delivered and the result is success. A signer asked to sign more bytes than the canonical body has refuses with a permanent error.',
 ['inputs','configurations'],'every limit and body size','Only a limit of 0 is tested.',[C,G],[('bodySize accounting',C),('CreateSignature check of the result',G)],['bytes passed to the sink, return value'])
p('C32','The identity encoder and decoder agree on every octet',
 'Every octet the quoted-printable encoder passes through literally is one the decoder takes literally and a tag value may contain, every other octet is written as "=" and two upper-case hex digits of its high and low half, and the decoder accepts after "=" exactly two upper-case hex digits and turns them into that octet. The decoder rejects every other unsafe octet and skips folding white space.',
 ['inputs'],'all 256 octets in every position','Encoding is never tested.',[Q,T],[('qp_table',Q),('Decode ranges',Q)],['Encode / Decode results'])
p('C33','Domains and selectors are validated before they are stored',
 'Every setter of a domain or selector for signing stores it only after it was found to consist of dot-separated non-empty labels of ASCII letters, digits and hyphens that neither start nor end with a hyphen, and otherwise raises a permanent error and leaves the old value.',
 ['inputs','configurations'],'every string, both option classes','Tests set two good values.',[O,U],[('ValidateDomain in the setters',O)],['SetDomain / SetSelector'])
p('C34','Message headers are split without losing or changing text',
 'Parsing a message yields its header fields in order, each exactly once, each made of its physical lines (only the line terminator removed) joined by CRLF, with a name equal to the text before the first colon trimmed of blanks; a line starting with space or tab continues the current field. The body starts right after the first empty line, and there is no body without one.',
 ['inputs'],'every message text','Five samples.',[M],[('Message::ParseLine, Header::ParseLine',M)],['GetHeaders, GetBodyOffset'])
p('C35','Only signature headers of the requested kind are offered',
 'A validator lists, in message order, exactly the header fields whose name, ignoring case, is DKIM-Signature when asked for DKIM and ARC-Message-Signature when asked for ARC, and none otherwise.',
 ['inputs','configurations'],'every message and validator type','Tests only use DKIM.',[V],[('Validatory constructor',V)],['GetSignatures'])
p('C36','ARC and DKIM profiles are not mixed up',
 'A signature is treated as ARC exactly when its header name is ARC-Message-Signature ignoring case; only then is v optional, i the instance and the identity-domain and strict-domain rules skipped, and all other rules apply to both alike.',
 ['inputs'],'every signature header','No test uses ARC.',[S,V],[('m_arc in Signature::Parse and CheckSignature',S)],['Signature::IsARC, Parse, CheckSignature'])
p('C37','Reset restores every field to its initial state',
 'After a reset, a signature, key record, tag list or message object is indistinguishable from a newly constructed one: every piece of state that parsing can change is set back, so reuse never lets data of an earlier message into a later verdict.',
 ['histories'],'every sequence of parse and reset','Only the tag list and message are reset in tests, and never after a failed parse.',[S,K,T,M],[('Reset functions',S)],['getters after Reset'])
p('C38','Every parser makes progress and terminates',
 'In every parsing loop each turn consumes input, advances through a finite collection, or leaves the loop, so that no input makes the library loop forever.',
 ['inputs'],'every input','A hang needs an input the tests lack.',['src/'],[('loops over streams and collections',Z)],['termination'])
p('C39','Undecodable encoded words pass through unchanged',
 'Decoding a header value replaces an encoded word only if it is complete (charset, encoding and text between question marks) and names the Q or B encoding; anything else that starts with "=" is kept literally, with the white space before it, and a failure to decode the contained text never escapes as an error.',
 ['inputs'],'every header value','One malformed sample.',[E],[('EncodedWord::Decode',E)],['Decode result'])
p('C40','The command line tool reports OK only for verified signatures',
 'The tool prints OK for a signature only after body hash, key lookup and signature check all succeeded for it, reports the class of every other outcome, and exits non-zero when signing fails. Options that take a value take it in their short and long form alike, every option its help names is accepted, and signing and verification use the domain, selector, key, key type and signature type that the options give.',
 ['inputs','configurations'],'every message and option','The tool is not tested.',[L],[('main',L)],['stdout, exit status'])
p('C41','White-space scanning never swallows input it does not return',
 'The white-space scanner returns exactly the characters it consumed, only white space of the requested kind, and when it returns nothing the input position is where it was; a CR not followed by LF is an error when line ends are being recognized.',
 ['inputs'],'every input and scan kind','A dozen samples.',[Z],[('ReadWhiteSpace and its unwind',Z)],['stream position and result'])
p('C42','Address lists reject malformed input and split at separators only',
 'Splitting an address list fails with a permanent error on an unclosed string, comment or angle bracket, an incomplete escape or a NUL character, and otherwise yields the addresses with comments dropped; no octet value other than the end of input is taken for the end of input.',
 ['inputs'],'every address header','A dozen samples.',[Z],[('NextAddressListToken, ParseAddressList',Z)],['ParseAddressList'])
p('C43','Colon-separated lists keep their entries whole and in order',
 'Splitting a colon-separated list yields its entries in order with surrounding folding white space trimmed and inner text kept, and fails on an empty entry other than behind the last colon.',
 ['inputs'],'every list text','Six samples.',[Z],[('ValueList',Z)],['ValueList result'])
p('C44','What the signer emits can be parsed back',
 'Only message header field names that can be written in a tag value enter the emitted h= list, and caller-supplied identity text enters the header only in encoded form, so that message content can never add, change or break a tag of the emitted header.',
 ['inputs'],'every message, including hostile header names, and every identity','Tests use the header name From only.',[G],[('name filter in CreateSignature',G),('QuotedPrintable::Encode of the identity',G)],['CreateSignature result'])
p('C45','Header selection options ignore letter case',
 'Header names given in the signing options select, exclude or oversign header fields regardless of letter case, both in the options and in the message.',
 ['configurations','inputs'],'every header name spelling','Tests use the defaults.',[G,O],[('lower-casing on both sides of the comparison',G),('DelHeaders',O)],['h= of the result'])
p('C46','Whatever is signed verifies',
 'For every message and every valid option set, the emitted signature put in front of the message verifies with the matching public key, and fails to verify after any change to a signed header or the signed part of the body.',
 ['inputs','configurations'],'all messages and options','Six samples.',[G,V],[('both pipelines',G)],['sign then verify'])
p('C47','Base64 decoding inverts encoding',
 'Decoding the encoding of any byte string yields the string, and decoding malformed text yields no bytes that were not encoded.',
 ['inputs'],'every byte string','Five samples.',[B],[('OpenSSL BIO filters',B)],['Base64_Encode/Decode'])
p('C48','Work is bounded by the size of the input',
 'Signing and verifying take time and memory at most proportional to message size times the number of signed headers.',
 ['inputs'],'every input','No test measures cost.',['src/'],[('single-pass loops',C)],['time, memory'])
p('C49','Signing options report exactly what was set',
 'After a setter of the signing options or of an additional signature returns, its getters report exactly the values passed, whatever they are, every other getter reports what it did before, and the result is the object itself; when it throws, nothing changed. A fresh object asks for no length limit, time, expiration or ARC instance and signs From, and its own domain, selector and key are those of its first signature.',
 ['configurations','histories'],'every value and every order of setter calls','Tests set a few small values once.',[O,'src/SignatoryOptions.hpp'],[('setters and getters',O)],['SignatoryOptions and AdditionalSignaturesOptions setters and getters'])
p('C50','Base64 conversion loses no octet on its way through the codec',
 'Both base64 conversions hand every octet of their argument, whatever it is, once to one filter that uses no line ends, the encoder flushes it, and the result is every octet read back in order (line ends of the encoded form apart), reading until nothing is left.',
 ['inputs'],'every byte string of any length','Five short samples fit into one read.',[B],[('BIO chain',B)],['Base64_Encode/Decode'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
