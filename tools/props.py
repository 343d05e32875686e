import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d['anchors']['observe_at']=obs or []
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
p('C01','Primitive integers and byte arrays: exact big-endian codec, bounded cursor',
 'Marshaling an unsigned or signed integer or a fixed-size byte array writes exactly its big-endian bytes at the start of the buffer, leaves the rest of the buffer untouched and returns the number of bytes written, or returns the end-of-buffer error when the buffer is too short. Unmarshaling inverts it for every byte string: it consumes exactly the bytes of the value and returns that value, or fails with the end-of-buffer error when fewer remain. The read cursor never yields bytes outside its input, its length is always what remains, and no input makes any of this panic.',
 ['inputs'],'all byte strings of any length, all values of every primitive type, all output buffer lengths',
 'the unit tests marshal a handful of values into buffers of one size',
 ['marshalable/src/lib.rs'],
 [('UnmarshalBuf::get/len/is_empty','marshalable/src/lib.rs'),('impl_be_prim! / impl Marshalable for [u8; M], ()','marshalable/src/lib.rs')],
 [('UnmarshalBuf','the not yet consumed suffix of the input','marshalable/src/lib.rs')],
 ['try_marshal/try_unmarshal of primitives','UnmarshalBuf::len after each call'])
p('C02','TPM2B sized buffers: two-byte size then exactly that many bytes, within capacity',
 'Every sized-buffer type of the base library marshals to a 16-bit big-endian size followed by exactly that many content bytes and nothing else, and unmarshaling accepts exactly those byte strings whose size is within the capacity of the type and backed by that many input bytes, returning exactly these contents and failing with the end-of-buffer error otherwise. Building one from bytes keeps precisely those bytes, or is refused with the array-length error when they exceed the capacity; the reported size and buffer views always agree with the contents. Nothing about a sized buffer panics, whatever the input or the length of the output buffer.',
 ['inputs'],'all 24 TPM2B types, all contents from empty to capacity and beyond, all input byte strings, all output buffer lengths',
 'tests exercise a few sizes of a few of the 24 types; short output buffers and boundary sizes at every type are not sampled',
 ['base/src/lib.rs','marshalable/src/lib.rs'],
 [('impl_try_marshalable_tpm2b_simple!','base/src/lib.rs'),('Tpm2bSimple / Tpm2b traits: from_bytes, get_size, get_buffer','base/src/lib.rs'),('capacity constants','base/src/constants.rs')],
 [('size','number of valid bytes in buffer','base/src/lib.rs TPM2B structs')],['try_marshal/try_unmarshal, from_bytes, get_size, get_buffer of each TPM2B type'])
p('C03','Plain TPM structures marshal field by field in spec order and round-trip',
 'Every constant, attribute, handle and structure type of the base library marshals as the concatenation of its members in the order and widths of TPM 2.0 Part 2, returning the exact total length. For every value, unmarshaling the marshaled bytes followed by anything yields the same value and leaves what followed untouched; for every byte string, unmarshaling either fails with the error of the first member that fails or yields a value that marshals back to exactly the consumed bytes. When the output buffer is shorter than the encoding, marshaling returns the end-of-buffer error and never panics or writes out of bounds.',
 ['inputs'],'all values and byte strings of about 80 newtypes and structures, all output buffer lengths',
 'tests check the encodings of a few structures with one value each',
 ['base/src/lib.rs','base/src/commands.rs','base/src/constants.rs','marshalable-derive/src/lib.rs'],
 [('derive(Marshalable) for structs','marshalable-derive/src/lib.rs'),('member order in the struct declarations','base/src/lib.rs')],None,['try_marshal/try_unmarshal of every structure type'])
p('C04','Tagged unions: the selector on the wire decides, and always matches, the variant',
 'Every union type of the base library marshals its 16- or 32-bit selector with the value TPM 2.0 Part 2 assigns to the active variant, followed by exactly that variant\'s members; where a structure carries the selector apart from the union (public areas, sensitive areas, attestations), the separate selector written is always the one of the variant that is written. Unmarshaling yields the variant named by the selector that was read and consumes exactly its bytes, round-trips like every other structure, and rejects every selector value not assigned to a variant with the unknown-selector error.',
 ['inputs'],'all variants, all 2^16 (or 2^32) selector values, all contents',
 'tests cover one or two variants per union',
 ['base/src/lib.rs','marshalable-derive/src/lib.rs','marshalable/src/lib.rs'],
 [('derive(Marshalable) for enums: MarshalableVariant','marshalable-derive/src/lib.rs'),('#[marshalable(selector)] / TpmtPublic, TpmtSensitive, TpmsAttest','base/src/lib.rs'),('explicit discriminants','base/src/lib.rs')],None,['try_marshal/try_unmarshal of TpmtPublic, TpmtSensitive, TpmsAttest, TpmsCapabilityData, TpmtSymDef, TpmtSignature, ...'])
p('C05','Counted lists: count prefix, capacity limits and element order are preserved',
 'Every list type of the base library marshals its count followed by exactly that many elements in order, and unmarshaling accepts a list only when its count is within the capacity and every element decodes, yielding exactly these elements; a count above the capacity is refused with the array-length error on both sides. Creating a list from elements and adding to it keep all earlier elements and their order, grow the count by one per addition, and are refused without changing the list when the capacity would be exceeded. A default list is empty. The count and the element view always agree, for any sequence of operations, and nothing panics.',
 ['inputs','histories'],'all list types, all counts from 0 to above capacity, all element values, all sequences of additions',
 'tests build a few lists below capacity',
 ['base/src/lib.rs','marshalable-derive/src/lib.rs'],
 [('impl_tpml!: new, add, count, accessor','base/src/lib.rs'),('derive(Marshalable) #[marshalable(length)]','marshalable-derive/src/lib.rs')],
 [('count','number of valid elements','TPML structs in base/src/lib.rs')],['try_marshal/try_unmarshal, new, add, count and the accessor of each TPML type'])
p('C06','Structures carried in sized buffers always fit and come back unchanged',
 'Storing any well-formed public area, sensitive-creation area or creation data in its sized buffer never fails for lack of room and stores exactly the structure\'s encoding; reading it back returns the same structure, and the bytes of a sized buffer that do not encode such a structure are rejected with the decoding error. Every sized buffer of the base library meant to hold an encoded structure has room for its longest encoding.',
 ['inputs'],'all values of the contained structures, all buffer contents',
 'tests convert single sample structures far below the capacity',
 ['base/src/lib.rs'],
 [('Tpm2bStruct::from_struct/to_struct, impl_try_marshalable_tpm2b_struct!','base/src/lib.rs'),('capacity of Tpm2bPublic, Tpm2bCreationData, Tpm2bSensitiveCreate, Tpm2bName, Tpm2bAttest, ...','base/src/lib.rs')],None,['from_struct, to_struct'])
p('C07','Every TPM identifier constant has the value TPM 2.0 Part 2 assigns to it',
 'Each named algorithm, curve, command code, response code, structure tag, startup type, session type, capability, property, handle type, permanent handle, NV type and attribute bit of the base library, and each algorithm of the tpm2 crate, has exactly the number TPM 2.0 Part 2 and the algorithm registry assign to it. Interface types admit exactly the identifiers of the algorithms or tags they are named for, with the same numbers. Two names have the same number only where the specification gives them the same number.',
 ['inputs'],'all 583 named constants of 35 types',
 'the tests compare a handful of constants; a wrong number in any other one compiles, passes and talks to the TPM about something else',
 ['base/src/constants.rs','base/src/lib.rs','crates/tpm2/src/constants.rs'],
 [('associated constants of TpmAlgId, TpmCc, TpmRc, TpmSt, TpmCap, TpmPt, ...','base/src/constants.rs'),('interface types TpmiAlg*, TpmiSt*, attribute flags Tpma*','base/src/lib.rs'),('Alg','crates/tpm2/src/constants.rs')],None,['the .0 value or the encoding of each constant'])
p('C09','Response and error codes: exact values, unambiguous parts, never success',
 'An error is never zero, the code of success. Every named TPM error has the code TPM 2.0 Part 2 assigns. An error built for a parameter 1 to 15, or for a handle or session 1 to 7, carries the base code, and reading kind and number back from it yields exactly these; a code that is not of that format yields none. A code counts as a warning exactly when it is a TPM 2.0 warning. Errors of the TSS layers keep their code and carry their layer, so that codes of different layers, and TPM codes, never coincide; converting a TPM error, a layer error or a marshaling error to the common error type keeps the code, and a nonzero word read from a response is accepted as is while zero is refused.',
 ['inputs'],'all 2^32 words, all kinds, positions, layers and named errors',
 'tests build two or three codes; the decoding of positions and sessions is not exercised over the code space',
 ['crates/tpm2/src/errors/tpm_rc/mod.rs','crates/tpm2/src/errors/mod.rs','crates/tpm2/src/errors/tss_rc.rs','marshalable/src/lib.rs'],
 [('TpmRcError: *For constructors, is_warning, format1_parameter','crates/tpm2/src/errors/tpm_rc/mod.rs'),('ErrorType/ErrorPosition::to_mask, from_mask','crates/tpm2/src/errors/tpm_rc/mod.rs'),('TssError, TssTddlError, TssTcsError, TssTspError','crates/tpm2/src/errors/mod.rs'),('From<Error> for TpmRcError/TssError','marshalable/src/lib.rs')],None,['get, is_warning, format1_parameter, TssError::try_from/from'])
p('C10','Handle classification and handle conversions accept exactly the defined ranges',
 'A handle counts as an HMAC session, a policy session or an NV index exactly when it lies in the range TPM 2.0 defines for that kind, and in at most one of them. Converting a number to an authorization session handle succeeds exactly for the password session and for HMAC and policy session handles, and to an NV index handle exactly for NV indexes; the converted handle keeps the number, and everything else is refused with the value error.',
 ['inputs'],'all 2^32 handle values',
 'tests probe a few values around some bounds',
 ['base/src/constants.rs','base/src/lib.rs'],
 [('TpmHc range constants, is_hmac_session, is_policy_session, is_nv_index','base/src/constants.rs'),('TryFrom<u32> for TpmiShAuthSession, TpmiRhNvIndex','base/src/lib.rs')],None,['is_*, try_from'])
p('C11','Multi-bit attribute fields: writing one never disturbs another, reads return it',
 'Reading the index type of NV attributes returns bits 7 to 4. Setting it makes exactly these bits the low four bits of the given type and leaves all other bits as they were, and reading it back returns them; attributes made from an index type have that type and nothing else set. The same holds for the command index and the handle count of command attributes at their places, and a locality counts as extended exactly when it is 32 or more.',
 ['inputs','histories'],'all attribute words, all field values, all sequences of updates',
 'tests set two or three fields from zero',
 ['base/src/lib.rs'],
 [('new_attribute_field, get_attribute_field, set_attribute_field','base/src/lib.rs'),('TpmaNv::get_index_type, set_type, From<TpmNt>; TpmaCc; TpmaLocality','base/src/lib.rs')],None,['TpmaNv word after set_type and from, get_index_type'])
p('C12','tpm2 crate: fixed-size and hash structures marshal exactly, honouring the limits',
 'Marshaling an integer or a fixed-size type of the tpm2 crate writes exactly its big-endian bytes at the start of the buffer and returns exactly the rest of the buffer, which it leaves untouched; it fails exactly when the buffer is too short. Unmarshaling inverts it and returns what follows. A hash value is written as algorithm identifier and digest of the length of that algorithm, is accepted and produced exactly when the algorithm is supported under the given limits, and comes back as the same algorithm and digest; an unknown identifier is refused. The reported sizes are the true sizes, the maximum size is never less than any value that the limits admit, and the largest digest size is the maximum over the supported algorithms. Nothing panics.',
 ['inputs'],'all values, all byte strings and buffer lengths, all sets of supported algorithms',
 'tests marshal a few values with all algorithms supported',
 ['crates/tpm2/src/marshal.rs','crates/tpm2/src/tpmi.rs','crates/tpm2/src/tpmt.rs','crates/tpm2/src/constants.rs'],
 [('Marshal/Unmarshal blanket implementations over MarshalArray/UnmarshalArray','crates/tpm2/src/marshal.rs'),('TpmiAlgHash, TpmtHa, Limits::max_digest_size','crates/tpm2/src/tpmt.rs')],None,['marshal, unmarshal, marshaled_size, marshaled_size_max, max_digest_size'])
p('C13','Client: a command goes out once, as header, handles, sessions, parameters',
 'Running a command hands the connection exactly one message: the tag (TPM_ST_SESSIONS exactly when there is at least one session, otherwise TPM_ST_NO_SESSIONS), the total length, the command code of that command, its handles, the authorization area if there are sessions, and its parameters, each in its wire encoding and nothing else. A command that cannot be encoded, or that would exceed 4096 bytes, is reported as an error and nothing at all is sent. No command, handle or session makes this panic.',
 ['inputs'],'all commands, handle values, combinations of up to three sessions and parameter lengths, including those that just fit and just do not',
 'tests use fixed commands with one or two sessions; the boundary at 4096 bytes and unencodable values at each position are not sampled',
 ['crates/tpm2-client/src/lib.rs','base/src/commands.rs'],
 [('run_command, run_command_with_handles, get_capability','crates/tpm2-client/src/lib.rs'),('CmdHeader','crates/tpm2-client/src/lib.rs'),('TpmCommand implementations','base/src/commands')],
 [('cmd_buffer, written','message under construction','crates/tpm2-client/src/lib.rs')],['bytes and number of Connection::transact calls'])
p('C14','Client: only a complete, successful, exactly consumed response is accepted',
 'Whatever bytes the connection returns, running a command succeeds exactly when they start with a whole response header with response code zero and a size between the header length and the number of bytes received, and the bytes up to that size are exactly the response handles, the parameter size if the response is tagged with sessions, the response parameters and one accepted acknowledgement per session, with nothing left over; the values returned are then the decoded ones. A nonzero response code is returned as that very error, an error of the connection is passed on unchanged, and nothing outside the received bytes is ever interpreted. No response makes the client panic.',
 ['inputs'],'all response byte strings of any length and any size field, all response types, all sessions',
 'tests feed a few hand-made responses',
 ['crates/tpm2-client/src/lib.rs'],
 [('run_command_with_handles, read_response_header','crates/tpm2-client/src/lib.rs'),('RespHeader','crates/tpm2-client/src/lib.rs')],None,['result of run_command and run_command_with_handles for given response bytes'])
p('C15','Sessions: authorization area laid out in order, acknowledgements all checked',
 'Without sessions the authorization area is empty; with one to three it is a 32-bit size equal to the number of bytes that follow, then the sessions in the order given, written only if it fits and leaving the rest of the buffer untouched. A response is accepted only if it carries one well-formed acknowledgement per session, in the same order, each accepted by its session, and exactly those bytes are consumed. A password session holds up to 64 bytes exactly as given and is refused beyond; it presents the password handle, an empty nonce, no attributes and the password, and accepts only an acknowledgement with empty nonce, the continue-session attribute alone and an empty HMAC. The session tuples hand out every session in its place.',
 ['inputs'],'all sessions and their contents, all buffers, all acknowledgement bytes',
 'tests use two fixed sessions and a few responses',
 ['crates/tpm2-client/src/lib.rs','crates/tpm2-client/src/sessions'],
 [('write_command_sessions, marshal_auth_size, read_response_sessions','crates/tpm2-client/src/lib.rs'),('PasswordSession','crates/tpm2-client/src/sessions/password.rs'),('AuthorizationArea and its implementations','crates/tpm2-client/src/sessions/authorization_area')],None,['bytes written by write_command_sessions, result of read_response_sessions, PasswordSession methods'])
p('C16','Server: every request gets one well-formed response; malformed ones are refused',
 'For every request and every response buffer the server returns the length of one complete response: the tag TPM_ST_NO_SESSIONS, the total length as a big-endian size, a response code, then exactly the output. A request shorter than its header, whose size field is not the number of bytes handed over, or whose parameters are cut off gets TPM_RC_COMMAND_SIZE; an unsupported command code gets TPM_RC_COMMAND_CODE; a response that does not fit gets TPM_RC_MEMORY; a failing random bit generator gets TPM_RC_FAILURE. Error responses are exactly ten bytes. When not even these fit, zero is returned and the buffer is left alone. Success is reported only for a command that was carried out. No request, buffer or platform failure makes the server panic.',
 ['inputs','histories'],'all request bytes and lengths, all response buffer lengths and contents, all sequences of commands, all behaviours of the random bit generator',
 'the tests send three requests to buffers that are large enough, with a generator that never fails',
 ['crates/tpm2-impl/src/tpmctx.rs','crates/tpm2-impl/src/handler/random.rs','crates/tpm2-impl/src/req_resp.rs','crates/tpm2/src/errors/tpm_rc/mod.rs'],
 [('TpmContext::execute_command, fill_error','crates/tpm2-impl/src/tpmctx.rs'),('CommandHandler::get_random','crates/tpm2-impl/src/handler/random.rs')],None,['return value of execute_command_separate/execute_command_in_place and the response buffer'])
p('C17','Server buffers: in-place and separate execution agree, access stays in bounds',
 'Executing a request in place gives the same response and leaves the same server state as executing it with a separate response buffer of the same length, for every request and every claimed request size; a claimed size beyond the buffer counts as the buffer length. Reading or writing a buffer at any offset and length succeeds exactly when the range lies inside it (of an in-place request: inside the request part), transfers exactly those bytes and touches nothing else; otherwise it fails, changes nothing and runs no callback. Offsets whose sum overflows are out of range, never a panic. The request and response cursors advance by exactly what was read or written and not at all on failure.',
 ['inputs','histories'],'all buffers, offsets, lengths and claimed request sizes including values near the machine maximum, all sequences of reads and writes',
 'tests use small offsets in one buffer and compare the two execution styles on one request',
 ['crates/tpm2-impl/src/platform/buffer.rs','crates/tpm2-impl/src/buffers/inout.rs','crates/tpm2-impl/src/buffers/separate.rs','crates/tpm2-impl/src/req_resp.rs','crates/tpm2-impl/src/tpmctx.rs'],
 [('TpmReadBuffer/TpmWriteBuffer for [u8]','crates/tpm2-impl/src/platform/buffer.rs'),('InOutBuffer, SeparateBuffers','crates/tpm2-impl/src/buffers'),('RequestResponseCursor, RequestThenResponse, Response','crates/tpm2-impl/src/req_resp.rs')],
 [('request_offset, response_offset','next position to read and to write','crates/tpm2-impl/src/req_resp.rs')],['read_into, write, write_callback, read_be_u16/u32; responses of both execution styles'])
p('C18','Server randomness: seeded first, reseeded whenever due, output exactly as drawn',
 'The server instantiates its random bit generator with fresh entropy and a fresh nonce from the entropy source, each completely filled, and refuses to start if that fails. Before every draw it asks the generator whether reseeding is due; if so, it reseeds with a freshly and completely filled seed before any output is drawn, and draws nothing if reseeding fails. GetRandom returns exactly the number of bytes requested, all of them from that one draw and unaltered. The helper functions for generator implementations deliver the underlying words in little-endian order, use the additional input for the first draw only, consume the fewest draws, and pass every failure on.',
 ['inputs','histories'],'all request sizes, all sequences of commands, all answers of the generator and the entropy source including failures at any call',
 'the test generator never fails and never requires reseeding; helpers are untested',
 ['crates/tpm2-impl/src/handler/random.rs','crates/tpm2-impl/src/crypto.rs','crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs'],
 [('CommandHandler::try_get_random','crates/tpm2-impl/src/handler/random.rs'),('Crypto::new','crates/tpm2-impl/src/crypto.rs'),('fill_bytes_via_next, next_u32_via_fill, next_u64_via_fill, next_u64_via_u32','crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs')],
 [('Crypto','generator and entropy source','crates/tpm2-impl/src/crypto.rs')],['calls made on Drbg and EntropySource, response bytes'])
p('C19','Simulator connection: exact framing on both ports, only full replies accepted',
 'Each call of a TCP simulator connection sends exactly the bytes the simulator protocol prescribes, on the right port and nothing on the other: the command number as a big-endian word, then its arguments; for a TPM command the locality set last (zero at first), the length and the command itself. It succeeds only if the complete reply came back - for a TPM command its length and that many bytes, at most what the response buffer holds - ended by a zero word, and then returns exactly the reply bytes and has consumed exactly the reply; a wrong end mark, a reply that is too long or cut off, or a failing stream is an error, never a partial result. Steps of a multi-step operation are sent in order and none is sent after one failed. Unless told otherwise it connects to ports 2321 and 2322. Connecting with retries makes the same connection, tries again after a failed attempt, and gives up in the end. No reply makes it panic.',
 ['inputs','histories'],'all arguments and commands, all response buffer lengths, all bytes the simulator may send, all stream failures, all sequences of calls',
 'no test that runs by default touches this code; it needs a simulator',
 ['crates/tpm2-client/src/connection/tcp.rs'],
 [('TcpConnection and its Connection impl','crates/tpm2-client/src/connection/tcp.rs'),('check_response_end','crates/tpm2-client/src/connection/tcp.rs')],
 [('TcpConnection','two streams and the locality','crates/tpm2-client/src/connection/tcp.rs')],['bytes received by the peer on each port, results of the calls'])
p('C20','User-defined types: derived codecs follow the declaration, whatever its shape',
 'For a type of the user\'s own, the derive macros produce the codec its declaration states: members in declaration order, each with its own encoding; a plain array with all its entries; an array with a length attribute with exactly as many entries as the named earlier member says, refused with the array-length error when that exceeds its capacity; a union with its selector first, then exactly the members of the variant with that selector, unknown selectors refused; a sized buffer with its two-byte size and that many bytes, never beyond its capacity or 65535; a sized structure with the encoding of the structure as contents, refused with the array-length error when that exceeds 65535 bytes. Every value round-trips and leaves what follows untouched, every accepted byte string marshals back to itself, and no value, input or output buffer makes a derived function panic.',
 ['inputs'],'all values and byte strings of the declared shapes: every integer member and count type, nested, empty, tuple and unit structures, several arrays, shared counts, multi-member and empty variants, u8 to u64 selectors, sized buffers of 0 to 70000 bytes',
 'the tests derive for a few declarations; no type of the repository has several counted arrays, unions with several members per variant, byte-wide counts or selectors, or a sized buffer above 65535 bytes',
 ['marshalable-derive/src/lib.rs','marshalable/src/lib.rs'],
 [('derive(Marshalable), attributes length and tpm2b_simple','marshalable-derive/src/lib.rs'),('derive(Tpm2bStruct)','marshalable-derive/src/lib.rs')],None,['try_marshal/try_unmarshal, try_marshal_variant/try_unmarshal_variant, from_bytes, from_struct/to_struct of derived types'])
p('C21','Simulator process: started as asked, reached on its ports, never left behind',
 'TcpSimulator::new starts exactly the given program with exactly the given arguments in the given directory, and succeeds only with a connection whose TPM interface goes to the port the file command.port in that directory holds and whose platform interface goes to the port in platform.port, both at the given address and with nothing sent yet. Surrounding white space in a port file does not matter; a port file that does not appear is looked for again, a bounded number of times. If the program cannot be started, a port file stays away or holds anything but a 16-bit number, or a port cannot be reached, it returns an error in bounded time and leaves no process running. connection and connection_mut give that connection. stop_nicely asks the simulator to stop on both interfaces and does not kill it; stop kills the process; dropping asks it to stop and kills it if that fails.',
 ['inputs','histories'],'all programs, arguments, directories and addresses, all contents of the port files, all failures of process, files and streams, all sequences of calls',
 'no test that runs by default touches this code; it needs a simulator',
 ['crates/tpm2-client/src/connection/tcp.rs'],
 [('TcpSimulator and its Drop impl','crates/tpm2-client/src/connection/tcp.rs'),('read_port_from_file_with_retries','crates/tpm2-client/src/connection/tcp.rs')],
 [('TcpSimulator','the child process and the connection to it','crates/tpm2-client/src/connection/tcp.rs')],['processes started and their arguments, peers connected to, bytes received by them, results of the calls'])
open(__file__.replace('tools/props.py','properties.jsonl'),'w').write(''.join(json.dumps(d)+'\n' for d in P))
