#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TG = ['generator/target/%s/%s.go' % x for x in (('c', 'c'), ('cpp', 'cpp'), ('csharp', 'csharp'), ('commonjs', 'commonjs'), ('esm', 'esm'), ('golang', 'golang'), ('java', 'java'), ('kotlin', 'kotlin'), ('python', 'python'))]
COMP = ['compiler/compiler.go', 'compiler/proto_visitor.go', 'compiler/import_visitor.go', 'compiler/info_visitor.go', 'compiler/literal_visitor.go', 'compiler/option_validator.go', 'compiler/compilation_runtime.go']
DEF = ['definition/field.go', 'definition/struct.go', 'definition/enum.go', 'definition/type.go', 'definition/expr.go', 'definition/method.go']
RT = 'runtime monitoring: generated codecs of every installed target run under '
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[{'name': n, 'where': w} for n, w in mech], observe_at=observe, hook_needed=hook,
                                **({'state': state} if state else {}))), technique, note))


prop('P01', 'Encoding puts every field at its declared bits of the frame',
     'For every accepted schema and every value, the bytes produced by the generated encoder of every target are exactly the frame the schema defines: fields in declaration order, each '
     'at its bit position with its declared width and byte order, strings zero-terminated, bytes length-prefixed, constants with their literal and padding zero. Values wider than their '
     'field contribute only their low bits and never disturb a neighbouring field.',
     ['inputs', 'programs', 'configurations'], 'every schema (types, bit widths, bit offsets, orders, arrays, nesting), every value including extremes and over-wide ones, every target and option set',
     'The repository tests compare a handful of hand-written schemas with golden frames; a codec is wrong only for particular type/width/offset/order combinations, of which there are thousands per target.',
     TG + ['generator/gen/gen_util.go'] + DEF, [('per-target field encoders and array bit helpers', 'generator/target/*/*.go: GenerateEncodeField, encode templates'), ('field position calculation', 'compiler/proto_visitor.go, definition/struct.go')],
     ['bytes written by encode() of the generated code'], RT + 'a reference codec oracle',
     'Randomised and grid-covering exploration; the oracle is an independent reference codec written from the README. Kotlin has no installed compiler: its code runs on an own front end (bbv/kt.py).')
prop('P02', 'Decoding a frame returns the encoded value in every target',
     'For every accepted schema and every frame that a conforming encoder of any target can produce, decoding returns exactly the encoded value: unsigned fields zero-extended, signed '
     'fields sign-extended from their declared width, floats bit-exact, booleans true or false, strings and bytes complete. Frames are therefore interchangeable between all targets.',
     ['inputs', 'programs', 'configurations'], 'every schema, every frame of it, every start offset, every target and option set',
     'Round trips in the tests use few schemas and mostly small positive values; sign extension, narrow floats, bits spanning bytes and enum edge values are only wrong for specific combinations.',
     TG + ['generator/gen/gen_util.go'] + DEF, [('per-target field decoders, sign extension, array bit helpers', 'generator/target/*/*.go: GenerateDecodeField, decode templates')],
     ['every member of the object after decode()'], RT + 'a reference codec oracle over decoded members',
     'Randomised and grid-covering exploration against an independent reference decoder; undeclared enum numbers follow each target\'s documented policy.')
prop('P03', 'Encode, size functions and buffers agree on the frame length',
     'For every value, the reported encoded size equals the number of bytes the encoder writes and returns, and the static size of fixed-size structures equals both. A buffer of exactly '
     'that size, at any start offset, always suffices.',
     ['inputs', 'programs', 'configurations'], 'every schema and value including empty, long and multi-byte strings, byte strings around every length-prefix boundary, arrays and nested dynamic structures, every target and option set',
     'Tests sample a few string and bytes lengths; the size is computed by separate code per target that only disagrees with the encoder at prefix boundaries, multi-byte text or particular nesting.',
     TG, [('encode_size generation', 'generator/target/*/*.go: encode_size templates'), ('dynamic offsets', 'generator/target/*/*.go: dynamic field handling')],
     ['encode_size(), encode() return value, bytes touched in the buffer'], RT + 'length-conservation monitors',
     'Exploration over length boundaries (0, 1, 127, 128, 16383, 16384 …), array sizes and nestings.')
prop('P04', 'A frame boundary is recognised exactly on every prefix of a stream',
     'For every frame, every proper prefix makes the decoded-size query answer negative with a lower bound on the bytes needed that never exceeds the true frame length, and decoding that '
     'prefix is refused; the complete frame, whatever follows it, makes it answer the exact frame length. A receiver that reads as told therefore always makes progress and never over-reads.',
     ['inputs', 'histories', 'programs'], 'every schema, frame, cut point, trailing data and buffer start',
     'Tests cut a few frames at a few points; the answer must be right for each of the cut points of each layout (inside prefixes, elements, nested structures).',
     TG, [('decode_size generation', 'generator/target/*/*.go: decode_size templates')], ['decode_size() and decode() on every prefix'], RT + 'an online framing monitor',
     'Every prefix of short frames and sampled prefixes of long ones; the receiver protocol is run to completion.')
prop('P05', 'Constant fields are emitted always and enforced on decode',
     'Every constant field appears in each encoded frame with exactly its literal, whatever the object holds, and a decoder accepts a frame if and only if every constant bit matches.',
     ['inputs', 'programs', 'configurations'], 'every basic type, width, order, bit offset and literal (including negative, hexadecimal, boolean and floating), named or unnamed, at top level, embedded, nested or in array elements',
     'The tests use a few byte-aligned constants; masks and shifts are wrong only for particular widths, offsets and orders.',
     TG + ['generator/gen/gen_util.go', 'compiler/literal_visitor.go'], [('constant bytes and masks', 'generator/gen/gen_util.go'), ('constant emission and check', 'generator/target/*/*.go')],
     ['constant bits of encoded frames; refusal of frames with one constant bit flipped'], RT + 'a bit-flip monitor on constant fields',
     'Every type/width/order at sampled bit offsets (all in the thorough tier) with every single-bit corruption.')
prop('P06', 'Codecs stay inside the caller\'s buffer whatever bytes arrive',
     'Encoders write only the bytes of the frame, and size queries and decoders read only the bytes of the input they were told about, for complete, truncated, corrupted and arbitrary '
     'input; none of them crashes, throws or invokes undefined behaviour where it is required to answer that the frame is incomplete.',
     ['inputs', 'fault_sequences', 'programs'], 'every schema, arbitrary input bytes of arbitrary length, every value including over-wide ones',
     'Tests run without sanitizers on valid or simply truncated frames; out-of-bounds access, overflow in length arithmetic and undefined shifts need hostile lengths and specific layouts.',
     TG, [('decode_size guards and bounds checks before reads', 'generator/target/*/*.go'), ('length prefix decoding', 'generator/target/*/*.go: bytes fields')],
     ['guard zones around buffers, sanitizer reports, exceptions'], 'AddressSanitizer/UndefinedBehaviorSanitizer and guard-zone monitors over hostile inputs',
     'C and C++ under ASan+UBSan with exactly sized heap buffers; managed targets by their own bounds exceptions and guard bytes.')
prop('P07', 'Generation options never change what goes over the wire',
     'For every schema, value and target, code generated with any combination of options (loop unrolling threshold, minimal code, decimal literals, memory copying, sign-extension method, '
     'compatibility, single file, inner classes) produces the same frames, sizes, values and refusals as code generated without options.',
     ['configurations', 'inputs', 'programs'], 'every option combination × target × schema × value',
     'The end-to-end matrix varies options over one fixed family of schemas; loops, sign extension and literals differ from the default only for particular widths and layouts.',
     TG + ['generator/gen/gen_option.go', 'main.go'], [('option-dependent generation', 'generator/target/*/*.go: GenCtx.GenOptions'), ('option parsing', 'main.go, generator/gen/gen_option.go')],
     ['encode/decode/size results per option set'], RT + 'a differential monitor across option sets',
     'Random option combinations over random schemas; all compared with the same reference.')
prop('P08', 'Decoded strings and bytes are owned or views exactly as documented',
     'When memory copying is on (or the target always copies), a decoded value never changes when the caller later reuses the input buffer. When it is off, byte strings (and in C strings) are '
     'views that show the buffer\'s current content, and every other member is unaffected.',
     ['histories', 'configurations', 'programs'], 'every schema with strings or bytes, nested and in arrays, every target with and without memory copying, any later overwrite of the input buffer',
     'Tests compare values immediately after decoding, so aliasing is invisible to them.',
     TG, [('memory-copy dependent decoding', 'generator/target/*/*.go: decodeNormalFieldBytes / String templates'), ('forced options', 'generator/target/{java,kotlin,python,commonjs,esm}')],
     ['object dump before and after the input buffer is overwritten'], RT + 'an ownership monitor that overwrites the input after decoding',
     'Exploration; C/C++ additionally under AddressSanitizer.')

LATER = os.path.join(V, 'tools', 'spec_more.py')
if os.path.exists(LATER):
    exec(open(LATER).read())
NA = globals().get('NA', [])
with open(V + '/properties.jsonl', 'w') as f:
    for p, _, _ in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                     technique=t, level='exploration', level_note=n) for p, t, n in P if p['id'] not in [x['property'] for x in NA]],
     'not_applicable': NA}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
