"""property -> rule"""
import rules_size, rules_decode, rules_prim, rules_spec, rules_bundled, rules_effects, rules_frame, rules_text, rules_obs, rules_api, rules_msg, rules_round

ABSINT = ('Abstract interpretation of the type-checked program (MIR of every function reachable from the roots, std collection/IO primitives by contract): '
          'values are symbolic terms, integers linear forms over the inputs with polyhedral path conditions (trace partitioning on branches, widening with inferred invariants at loops). ')
TRUST = ['rustc nightly type-checks and lowers the crate to the MIR that is analysed',
         'the contracts of std, bytes, byteorder, hashbrown, chrono, uuid and string used by the code, in sa/builtins_.py',
         'contents below 4 GiB where the property says so']

ABS = 'abstract interpretation of MIR (symbolic terms, polyhedra, trace partitioning)'
SCAN = 'Scan of the type-checked program (resolved calls, types, impls, statics) of the whole crate. '
EFF = 'effect and reachability analysis over the type-checked program (MIR call graph)'
NOTE = 'Static: decides every path of the analysed MIR under the contracts listed in assumptions; paths the domain cannot represent precisely are reported as undecided (counted in the evidence), never as violations. '

class Rule:
    def __init__(self, f, explain, need=(), assume=TRUST, technique=ABS, note=NOTE):
        self.run, self.explain, self.need, self.assume, self.technique, self.note = f, explain, need, assume, technique, note

RULES = {
 'C08': Rule(rules_round.c08, ABSINT + 'Round trip by composition: each path of the encoder gives a symbolic byte string; the decoder is interpreted on exactly that string; on every joint path it must succeed, leave nothing, and the result must equal the encoded value (structural comparison of terms; texts, floats and timestamps by their representation).', ['zero', 'zero_dec']),
 'C09': Rule(rules_round.c09, ABSINT + 'As C08 for lists, maps, arrays, multiple and described values: whole compositions for small collections (every number of elements up to the bound), and for any size an inductive step rule: the decoder\'s repetition runs once per announced element, decodes what the encoder wrote for one element, and appends exactly it, in order.', ['zero', 'zero_dec']),
 'C32': Rule(rules_round.c32, ABSINT + 'Round trip by composition as in C08, for every performative, SASL body, delivery state, outcome, terminus, section, frame and message: every combination of absent and present fields through path splitting; message bodies of a few sections with every combination of the other sections.', ['zero', 'zero_dec']),
 'C15': Rule(rules_msg.c15, ABSINT + 'The message encoders\' output is matched against the section order for every combination of present sections; the reading loop is followed for every sequence of sections up to the bound and, inductively, for one arbitrary step: each section kind reaches exactly its part of the message.', ['zero', 'zero_dec']),
 'C24': Rule(rules_api.c24, ABSINT + 'Every public accessor, builder, constructor, conversion and Clone implementation is interpreted on a symbolic value and its result compared structurally: accessors return the field they are named after, builders change only their part, conversions wrap their argument in the variant of its type, replies carry the correlation id only, clones are equal.', ['zero']),
 'C18': Rule(rules_frame.c18, ABSINT + 'Frame encoder: the header bytes are located in the symbolic output and compared field by field (length against the bytes written after it, offset, type, channel), and the announced sizes that make up the length must be the sizes written. Frame decoder: every path is classified by offset and type bytes; wrong ones must be errors, the body starts after the extended header, the channel is the big-endian read.', ['zero', 'zero_dec']),
 'C19': Rule(rules_frame.c19, ABSINT + 'The stream decoder is run from every state it can reach (the set of states is computed to closure) on an arbitrary buffer: each outcome is classified (wait, frame, error) and its consumption compared with the announced length and the state left behind; no outcome may depend on how the bytes were cut.', ['zero_dec']),
 'C20': Rule(rules_frame.c20, ABSINT + 'The protocol header encoder\'s constant output per id and the decoder\'s paths over all values of the eight bytes are compared with the specification.'),
 'C28': Rule(rules_frame.c28, ABSINT + 'The response builder is interpreted on three symbolic strings; the resulting byte string must be the five pieces in order.'),
 'C29': Rule(rules_frame.c29, ABSINT + 'Transfer encoder: after descriptor and field list the payload follows unframed and once, and the announced size of a transfer (and of each payload kind) equals what is written. Decoder: the payload is the whole rest of the input when there is any; other performatives return the rest untouched.', ['zero', 'zero_dec']),
 'C16': Rule(rules_obs.c16, ABSINT + 'Typestate of the remembered size: for every function that can change content of a type with a size cell, on every path ending with changed content the cell is reset (or holds the size of the new content); the size function returns the cell only when it is set, and sets it to the computed size.', ['zero']),
 'C17': Rule(rules_obs.c17, ABSINT + 'Interior mutability is confined to the remembered size; every method taking &self leaves every other field unchanged on all paths; equality, hashing and encoding give the same answer whatever the cells hold (each path of eq is re-run with the cells replaced).', ['zero']),
 'C21': Rule(rules_text.c21, ABSINT + 'All comparison, ordering and hashing functions over text types are interpreted on all combinations of representations: eq is true exactly when the contents are compared equal, cmp agrees with eq and is antisymmetric, hashing feeds the content only, equal values feed the same bytes, lookups by borrowed text agree, and no comparison calls itself on the same arguments.'),
 'C22': Rule(rules_effects.c22, ABSINT + 'Effect scan over the type-checked program: no unsafe block, unchecked constructor or lossy conversion in the crate; and dataflow: each text or char a decoder returns is the value for which the UTF-8 (or scalar) check succeeded, over exactly the bytes returned.', ['zero_dec'], technique=EFF + '; ' + ABS),
 'C26': Rule(rules_effects.c26, SCAN + 'Effect analysis: statics, thread locals and interior-mutable globals of the crate, and every foreign function reachable from the encoders and decoders, are enumerated; only functions of an allowed list of pure library modules may be reached; stream codecs keep state only in self.', technique=EFF),
 'C27': Rule(rules_effects.c27, SCAN + 'Auto-trait and lifetime facts of every public type are taken from the type checker (Send, \'static, no borrowed fields other than &\'static str), and no function reachable from a decoder creates a value that shares the input buffer.', technique=EFF),
 'C25': Rule(rules_bundled.c25, ABSINT + 'The bundled XML specification is parsed at check time and compared with the declared types (fields, order, optionality) and, through the analyses of C10-C13 driven by that table, with what the code does.', ['zero', 'zero_dec']),
 'C13': Rule(rules_spec.c13, ABSINT + 'For each restricted type: what each choice writes and what each wire value reads as are computed over all paths and compared with the oracle table in both directions; every other value is rejected or kept as custom.', ['zero']),
 'C10': Rule(rules_spec.c10, ABSINT + 'The bytes written for each composite and section are parsed symbolically and compared with the table of AMQP 1.0 composites (oracle/amqp10.json, written from the OASIS specification): descriptor, number and order of fields, the source field of each position, its AMQP type, null for absent optionals.', ['zero']),
 'C11': Rule(rules_spec.c11, ABSINT + 'The decoder of each composite is interpreted with symbolic list header: for each count, the n-th decoded field must start where the (n-1)-th ended and land in the n-th specified field; fields beyond the count and nulls get the default of the oracle table; a missing mandatory field is the error naming it; the remainder starts at the end of the announced region.', ['zero_dec']),
 'C12': Rule(rules_spec.c12, ABSINT + 'For each polymorphic position and each composite, the decoder\'s paths are classified by descriptor (number or symbol): each specified code and name must lead to the specified type, every other path to the error carrying the descriptor.', ['zero_dec']),
 'C05': Rule(rules_size.c05, ABSINT + 'AmqpCodec::encode and ProtocolIdCodec::encode are interpreted with a destination of arbitrary prior content and room. Obligations: every put_* call needs room for its bytes (what was reserved or is left), the original content is an untouched prefix of the result, the result is Ok; for every encoder of the crate, all its panic sites are safe and it only appends; and the announced size is at least what is written (so the reservation suffices).', ['zero']),
 'C07': Rule(rules_prim.c07, ABSINT + 'For every primitive type: on each path of its encoder the constructor written must belong to the type and the value bytes must denote the value (compared as linear forms over the input, witnesses computed for mismatches); on each path of its decoder, every constructor of the type is accepted with the specified value and width and every other constructor is rejected. The same for the constructors of Variant.', ['zero']),
 'C06': Rule(rules_size.c06, ABSINT + 'Each encoder\'s output is parsed as AMQP 1.0 by an abstract reader: every length and size field must equal the (symbolic) number of bytes that follow in the announced region, every count field the number of elements, and one-byte fields must be proved to fit; array and list constructors must agree with their contents.', ['zero']),
 'C01': Rule(rules_decode.c01, ABSINT + 'Every decoding entry point (each Decode, DecodeFormatted and ArrayDecode implementation, the frame stream decoder in each of its states and the protocol-header decoder) is interpreted on an arbitrary input slice. Obligations: at every reachable panic site (bounds and overflow assertions, slicing, split_at, unwrap/expect, preconditions of library calls) the path condition must imply the site\'s safety condition; callees are either inlined or replaced by their own analysed contract (they consume 0..=n bytes).', ['zero_dec']),
 'C02': Rule(rules_decode.c02, ABSINT + 'Every reservation (with_capacity, reserve, extending BytesMut, collection growth by hint) reached while decoding is an obligation: the reserved amount must be bounded, by the path condition, by the length of the bytes received or a small constant.', ['zero_dec']),
 'C03': Rule(rules_decode.c03, ABSINT + 'Loops driven by the wire: on every path from loop head to loop head, the remaining input shrinks (by the least length of the element decoders, themselves fixpoint facts) or the path is proved finite by a non-wire bound. Recursion: the strongly connected components of the call graph of the decoders; every cycle must pass a depth bound.', ['zero_dec']),
 'C14': Rule(rules_decode.c14, ABSINT + 'For every decoder and every successful path: the remainder is a suffix of the input starting at the number of bytes consumed; every byte read lies before it; compound decoders take the announced region, read elements only inside it and return the bytes after it.', ['zero_dec']),
 'C23': Rule(rules_decode.c23, ABSINT + 'On every path of every decoder on which a nested decode (or check) fails, the result must be Err carrying that error or a conversion of it.', ['zero_dec']),
 'C04': Rule(rules_size.c04, ABSINT + 'For every Encode and ArrayEncode implementation the outcomes of the size function and of the writing function are paired; on every consistent pair the announced size must equal the sum of the lengths of the appended items.', ['zero'],
     note=NOTE + 'All 586 (type, path pair) obligations are discharged on the current tree.'),
}
