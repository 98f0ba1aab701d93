"""Language rules as document pairs: <<bad||good>> alternatives, @@ marks the construct a diagnostic must point at.

$S1 $E1 $V1 $f1 $m1 $p1 are replaced by fresh names (type, enum, enumerator, field, method, package segment).
A rule is (id, documents, kind); documents is {file: text}, main.bb is the input. The marker is in front of the
offending construct; its line is what the diagnostic has to name."""
import random, re

R = []


def rule(id, main, kind='error', **files):
    d = {'main.bb': main}
    for k, v in files.items():
        d[k.replace('__', '/') + '.bb'] = v
    R.append((id, d, kind))


PK = 'package $p0.$p1;\n'


def body(id, text, kind='error', **files):
    rule(id, PK + text, kind, **files)


def fld(id, text, kind='error', pre=''):
    """text inside a struct"""
    body(id, (pre + '\n' if pre else '') + 'struct $S9 {\n    uint8 $f8;\n%s\n    uint8 $f9;\n};\n' % text, kind)


# ---- package, options
rule('no-package', '<<||package $p1;>>\nstruct $S1 { uint8 $f1; };\n')
rule('two-packages', 'package $p1.$p2;\nstruct $S1 { uint8 $f1; };\n<<@@package $p3;||>>\n')
rule('same-package-twice', 'package $p1;\n<<@@package $p1;||>>\nstruct $S1 { uint8 $f1; };\n')
rule('package-of-import', 'package $p1.$p2;\n\n<<@@import "other.bb";||import "other2.bb";>>\nstruct $S1 { uint8 $f1; };\n', other='package $p1.$p2;\nstruct $S2 { uint8 $f2; };\n',
     other2='package $p1.$p3;\nstruct $S2 { uint8 $f2; };\n')
rule('package-of-sibling', 'package $p1.$p2;\nimport "a.bb";\n<<@@import "b.bb";||import "c.bb";>>\n', a='package $p3;\nstruct $S1 { uint8 $f1; };\n', b='package $p3;\nstruct $S2 { uint8 $f2; };\n',
     c='package $p4;\nstruct $S2 { uint8 $f2; };\n')
rule('package-ident', '@@package <<1a||$p1>>;\nstruct $S1 { uint8 $f1; };\n')
rule('package-dot', '@@package <<$p1..$p2||$p1.$p2>>;\nstruct $S1 { uint8 $f1; };\n')
body('option-twice', 'option omit_empty = true;\noption go_package = "aa/bb";\n<<@@option go_package = "aa/cc";||>>\nstruct $S1 { uint8 $f1; };\n')
for o, bad, good in (('omit_empty', '"true"', 'true'), ('omit_empty', '1', 'false'), ('go_package', '1', '"a/b"'), ('cpp_namespace', 'true', '"a::b"'), ('csharp_namespace', '1.5', '"A.B"'), ('java_package', '7', '"a.b"'), ('kotlin_package', 'false', '"a.b"')):
    body('option-type-%s-%s' % (o, re.sub(r'\W', '', bad)), '\n@@option %s = <<%s||%s>>;\nstruct $S1 { uint8 $f1; };\n' % (o, bad, good))
body('option-unknown', '\n<<@@option $f5 = "x";||>>\nstruct $S1 { uint8 $f1; };\n', 'warning')
body('option-unknown-int', '\n<<@@option $f5 = 5;||>>\nstruct $S1 { uint8 $f1; };\n', 'warning')

# ---- names
body('struct-name', '\nstruct @@<<low_$f1||$S1>> { uint8 $f1; };\n')
body('enum-name', '\nenum @@<<low_$f1||$E1>> [1] { $V1 = 1, };\nstruct $S1 { uint8 $f1; };\n')
body('enumerator-name', 'enum $E1 [1] {\n    $V2 = 0,\n    @@<<low_$f1||$V1>> = 1,\n};\n')
fld('field-name', '    uint8\n @@<<$S1||$f1>>;')
fld('const-name', '    uint8 @@<<$S1||$f1>> = 5;')
fld('method-name', '    uint8 $f1 {\n        get @@<<$S1||$m1>>(uint8): value;\n    };')
fld('method-name-set', '    uint8 $f1 {\n        set @@<<$S1||$m1>>(uint8): value;\n        get $m2(uint8): value;\n   get <<$m3||$m1>>(uint8): value; };', 'error')
body('struct-style', '\nstruct @@<<Low_case||$S1>> { uint8 $f1; };\n', 'warning')
body('enum-style', '\nenum @@<<Low_case||$E1>> [1] { $V1 = 1, };\nstruct $S1 { uint8 $f1; };\n', 'warning')
body('enumerator-style', '\nenum $E1 [1] {\n    @@<<CamelCase||$V1>> = 1,\n};\nstruct $S1 { uint8 $f1; };\n', 'warning')
fld('field-style', '    uint8 @@<<camelCase||$f1>>;', 'warning')
fld('const-style', '    uint8\n  @@<<camelCase||$f1>> = 3;', 'warning')
fld('method-style', '    uint8 $f1 {\n        get @@<<camelCase||$m1>>(uint8): value;\n    };', 'warning')

# ---- duplicates
body('dup-struct', 'struct $S1 { uint8 $f1; };\nstruct @@<<$S1||$S2>> { uint8 $f2; };\n')
body('dup-struct-enum', 'struct $S1 { uint8 $f1; };\nenum @@<<$S1||$E2>> [1] { $V1, };\n')
body('dup-enum-struct', 'enum $E1 [1] { $V1, };\nstruct @@<<$E1||$S2>> { uint8 $f1; };\n')
body('dup-enum', 'enum $E1 [1] { $V1, };\nenum @@<<$E1||$E2>> [1] { $V2, };\n')
body('dup-inline-struct', 'struct $S1 { uint8 $f1; };\nstruct $S2 {\n    uint8 $f2;\n    struct @@<<$S1||$S3>> { uint8 $f3; };\n};\n')
body('dup-inline-later', 'struct $S2 {\n    uint8 $f2;\n    struct $S3 { uint8 $f3; };\n};\nstruct @@<<$S3||$S1>> { uint8 $f1; };\n')
body('dup-inline-itself', 'struct $S2 {\n    uint8 $f2;\n    struct @@<<$S2||$S3>> { uint8 $f3; };\n};\n')
body('dup-inline-typed', 'struct $S1 { uint8 $f1; };\nstruct $S2 {\n    uint8 $f2;\n    struct @@<<$S1||$S3>> { uint8 $f3; } $f4;\n};\n')
body('dup-enumerator-same', 'enum $E1 [1] {\n    $V1,\n    $V2 = 7,\n    @@<<$V1||$V3>> = 9,\n};\n')
body('dup-enumerator-other', 'enum $E1 [1] { $V1, };\nenum $E2 [1] {\n    $V2,\n    @@<<$V1||$V3>>,\n};\n')
body('enumerator-is-type', 'struct $S1 { uint8 $f1; };\nenum $E2 [1] {\n    $V2,\n    @@<<$S1||$V3>>,\n};\n')
body('type-is-enumerator', 'enum $E2 [1] {\n    $V2,\n};\nstruct @@<<$V2||$S1>> { uint8 $f1; };\n', 'error')
rule('dup-type-import', PK + 'import "a.bb";\n\nstruct @@<<$S1||$S2>> { uint8 $f1; };\n', a='package $p5;\nstruct $S1 { uint8 $f1; };\n')
rule('dup-enumerator-import', PK + 'import "a.bb";\n\nenum $E2 [1] {\n   @@<<$V1||$V2>>,\n};\n', a='package $p5;\nenum $E1 [1] { $V1, };\n')
rule('dup-type-deep-import', PK + 'import "a.bb";\n\nstruct @@<<$S1||$S2>> { uint8 $f1; };\n', a='package $p5;\nimport "b.bb";\nstruct $S3 { uint8 $f1; };\n', b='package $p6;\nstruct $S1 { uint8 $f1; };\n')
rule('dup-type-siblings', PK + 'import "a.bb";\nimport "b.bb";\n', a='package $p5;\nstruct $S3 { uint8 $f1; };\n', b='package $p6;\nstruct <<$S3||$S1>> { uint8 $f1; };\n')
rule('dup-inline-siblings', PK + 'import "a.bb";\nimport "b.bb";\n', a='package $p5;\nstruct $S3 { struct $S4 { uint8 $f1; }; };\n', b='package $p6;\nstruct <<$S4||$S1>> { uint8 $f1; };\n')
# files of one name in several directories
for i, (d1, d2) in enumerate((('a/x', 'b/x'), ('main', 'b/main'), ('a/b/x', 'a/x'))):
    d1 = 'a/main' if d1 == 'main' else d1
    for k, x, y in (('type', 'struct $S3 { uint8 $f1; };\n', 'struct <<$S3||$S1>> { uint16 $f2; };\n'), ('kind', 'struct $S3 { uint8 $f1; };\n', 'enum <<$S3||$E1>> [1] { $V1, };\n'),
                    ('enumerator', 'enum $E1 [1] { $V1, };\n', 'enum $E2 [1] { <<$V1||$V2>>, };\n'), ('inline', 'struct $S3 {\n  struct $S4 { uint8 $f1; };\n};\n', 'struct $S5 {\n  struct <<$S4||$S1>> { uint8 $f1; };\n};\n')):
        rule('dup-%s-same-name-%d' % (k, i), PK + 'import "%s.bb";\nimport "%s.bb";\n' % (d1, d2), **{d1.replace('/', '__'): 'package $p5;\n' + x, d2.replace('/', '__'): 'package $p6;\n' + y})
rule('dup-type-same-name-main', 'package $p0;\nimport "a/main.bb";\nstruct @@<<$S1||$S2>> { uint8 $f1; };\n', a__main='package $p5;\n\nstruct $S1 { uint8 $f1; };\n')
fld('dup-field', '    int16 $f1;\n    string $f2;\n    @@bool <<$f1||$f3>>;')
fld('dup-field-const', '    int16 $f1;\n    @@uint8 <<$f1||$f3>> = 3;')
fld('dup-const-const', '    int16 $f1 = 5;\n    @@uint8 <<$f1||$f3>> = 3;')
fld('dup-inline-member', '    int16 $f1;\n    @@struct $S1 { uint8 $f2; int8 <<$f1||$f3>>; };')
fld('dup-member-inline', '    struct $S1 { uint8 $f2; int8 $f1; };\n    @@int16 <<$f1||$f3>>;')
fld('dup-embedded-member', '    int16 $f1;\n    @@$S1;', pre='struct $S1 { uint8 <<$f1||$f3>>; };')
fld('dup-embedded-deep', '    int16 $f1;\n    @@$S2;', pre='struct $S1 { uint8 <<$f1||$f3>>; };\nstruct $S2 { $S1; uint8 $f4; };')
fld('dup-embedded-twice', '    $S1;\n    <<@@$S1||$S2>>;', pre='struct $S1 { uint8 $f1; };\nstruct $S2 { uint8 $f3; };')
fld('dup-embedded-inner-twice', '    $S2;\n    <<@@$S1||$S3>>;', pre='struct $S1 { uint8 $f1; };\nstruct $S2 { $S1; uint8 $f3; };\nstruct $S3 { uint8 $f6; };')
fld('method-is-field', '    int16 $f1;\n    uint8 $f2 {\n        @@get <<$f1||$m1>>(uint8): value;\n    };')
fld('method-is-own-field', '    uint8 $f2 {\n        @@get <<$f2||$m1>>(uint8): value;\n    };')
fld('field-is-method', '    uint8 $f2 {\n        get $m1(uint8): value;\n    };\n    @@int16 <<$m1||$f1>>;')
fld('method-of-two-fields', '    uint8 $f2 {\n        get $m1(uint8): value;\n    };\n    uint8 $f3 {\n        @@get <<$m1||$m2>>(uint8): value;\n    };')
fld('method-embedded', '    int16 $m1;\n    @@$S1;', pre='struct $S1 { uint8 $f1 { get <<$m1||$m3>>(uint8): value; }; };')
fld('dup-getter', '    uint8 $f2 {\n        get $m1(uint8): value;\n        @@get <<$m1||$m2>>(uint8): value + 1;\n    };')
fld('dup-setter', '    uint8 $f2 {\n        set $m1(uint8): value;\n get $m1(uint8): value; get $m2(uint8): value; \n        @@set <<$m1||$m2>>(uint8): value + 1;\n    };')
fld('method-types', '    uint8 $f2 {\n        get $m1(uint8): value;\n        @@set $m1(<<int8||uint8>>): value + 1;\n    };')
fld('method-types-float', '    uint8 $f2 {\n        set $m1(float32): value;\n        @@get $m1(<<float64||float32>>): value + 1;\n    };')
fld('method-anonymous', '    uint8 $f2 {\n        @@get <<||$m1>>(uint8): value;\n    };')
for i, t in enumerate(('string', 'bytes', 'uint8<4>', '$S1', '$E1')):
    fld('method-on-%d' % i, '    <<%s||uint8>> $f2 \n@@{\n        get $m1(uint8): value;\n    };' % t, pre='struct $S1 { uint8 $f1; };\nenum $E1 [1] { $V1, };')

# ---- definitions
body('empty-struct', '\nstruct $S1 \n@@{ <<||uint8 $f1;>> };\n')
body('empty-struct-semi', '\nstruct $S1 @@{ <<;;||uint8 $f1;>> };\n')
body('empty-enum', '\nenum $E1 [1]\n@@{ <<||$V1,>> };\n')
body('enum-no-size', '\nenum $E1 @@<<||[1]>> { $V1, };\n')
fld('unknown-type', '    uint8 $f1;\n    @@<<$S5||int8>> $f2;')
fld('unknown-elem', '    uint8 $f1;\n    @@<<$S5||int8>><3> $f2;')
fld('unknown-embed', '    uint8 $f1;\n    @@<<$S5||$S1>>;', pre='struct $S1 { uint8 $f2; };')
fld('unknown-struct-kw', '    uint8 $f1;\n    struct @@<<$S5||$S1>> $f3;', pre='struct $S1 { uint8 $f2; };')
fld('unknown-enum-kw', '    uint8 $f1;\n    enum @@<<$E5||$E1>> $f3;', pre='enum $E1 [1] { $V2, };')
fld('struct-kw-enum', '    uint8 $f1;\n    <<struct||enum>> @@$E1 $f3;', pre='enum $E1 [1] { $V2, };')
fld('enum-kw-struct', '    uint8 $f1;\n    <<enum||struct>> @@$S1 $f3;', pre='struct $S1 { uint8 $f2; };')
body('forward', 'struct $S1 {\n    uint8 $f1;\n    @@<<$S2||int8>> $f2;\n};\nstruct $S2 { uint8 $f1; };\n')
body('recursive', 'struct $S1 {\n    uint8 $f1;\n    @@<<$S1||int8>> $f2;\n};\n')
body('recursive-array', 'struct $S1 {\n    uint8 $f1;\n    @@<<$S1||int8>><2> $f2;\n};\n')
body('recursive-embed', 'struct $S1 {\n    uint8 $f1;\n    @@<<$S1||int8 $f2>>;\n};\n')
for i, t in enumerate(('uint8', 'string', 'bytes', 'int16<3>', '$E1')):
    fld('embed-%d' % i, '    uint8 $f1;\n    @@<<%s||$S1>>;' % t, pre='struct $S1 { uint8 $f2; };\nenum $E1 [1] { $V2, };')
rule('not-imported', PK + 'import "a.bb";\nstruct $S2 {\n    @@<<$S5||$S1>> $f1;\n};\n', a='package $p5;\nstruct $S1 { uint8 $f1; };\n', b='package $p6;\nstruct $S5 { uint8 $f1; };\n')

# ---- sizes
for i, (t, w, bad, good) in enumerate((('uint8', 8, '[2]', '[1]'), ('uint8', 8, '[#9]', '[#8]'), ('int16', 16, '[2#1]', '[1#8]'), ('uint32', 32, '[5]', '[4]'), ('int64', 64, '[8#1]', '[7#8]'), ('bool', 8, '[#9]', '[#8]'),
                                       ('float32', 32, '[4#1]', '[4]'), ('float64', 64, '[9]', '[8]'), ('$E1', 12, '[1#5]', '[1#4]'), ('uint8<3>', 24, '[4]', '[3]'), ('uint8<3>', 24, '[#25]', '[#24]'))):
    fld('field-wide-%d' % i, '    %s $f1 @@<<%s||%s>>;\n    void [#%d];' % (t, bad, good, (-w % 8) or 8), pre='enum $E1 [1#4] { $V2, };')
fld('const-wide', '    uint16 $f1 @@<<[3]||[2]>> = 5;')
fld('const-wide-bits', '    bool $f1 @@<<[#9]||[#8]>> = true;')
for i, t in enumerate(('string', 'bytes', 'string<2>', 'bytes<3>', '$S1', '$S1<2>')):
    fld('dynamic-size-%d' % i, '    %s $f1 @@<<[8]||>>;' % t, pre='struct $S1 { string $f3; };')
fld('struct-width', '    $S1 $f1 @@<<[1]||[2]>>;', pre='struct $S1 { uint16 $f3; };')
fld('struct-width-big', '    $S1 $f1 @@<<[3]||[2]>>;', pre='struct $S1 { uint16 $f3; };')
fld('array-width', '    uint8<3> $f1 @@<<[2]||[#18]>>;\n    void [#6];')
fld('array-width2', '    int32<5> $f1 @@<<[16]||[15]>>;')
fld('array-zero', '    @@uint8<<<0>||<1>>> $f1;')
fld('array-negative', '    @@uint8<<<-1>||<1>>> $f1;')
fld('array-of-array', '    @@uint8<2><<<3>||>> $f1;')
fld('zero-size', '    uint8 $f1 @@<<[0]||[1]>>;')
fld('zero-bits', '    uint8 $f1 @@<<[#0]||[#8]>>;')
fld('zero-void', '    void @@<<[0]||[1]>>;')
fld('void-no-size', '    void @@<<||[1]>>;')
fld('empty-size', '    void @@[<<||1>>];')
body('zero-struct-size', 'struct $S1 @@<<[0]||[2]>> { uint16 $f1; };\n')
body('zero-enum-size', 'enum $E1 @@<<[0]||[2]>> { $V1, };\n')
body('struct-size-small', 'struct $S1 \n@@<<[1]||[2]>> { uint16 $f1; };\n')
body('struct-size-large', 'struct $S1 @@<<[2#1]||[2]>> { uint16 $f1; };\n')
body('struct-size-deep', 'struct $S2 { uint8 $f3; };\nstruct $S1 @@<<[5]||[6]>> { uint16 $f1; $S2 $f2; $S2; void [2]; };\n')
body('struct-size-dynamic', 'struct $S1\n @@<<[2]||>> { uint16 $f1; string $f2; };\n')
body('struct-size-dynamic-deep', 'struct $S2 { bytes<2> $f3; };\nstruct $S1 @@<<[2]||>> { uint16 $f1; $S2 $f2; };\n')
body('struct-size-dynamic-embed', 'struct $S1 @@<<[2]||>> { uint16 $f1; struct $S2 { bytes $f2; }; };\n')
body('unaligned-struct', '@@struct $S1 { uint16 $f1; uint8 $f2 <<[#7]||[#8]>>; };\n')
body('unaligned-struct-void', '\n@@struct $S1 { uint16 $f1; void <<[#4]||[1]>>; };\n')
body('unaligned-struct-embed', '\n@@struct $S1 { struct $S2 { uint8 $f1; }; bool $f2 <<[#1]||[1]>>; };\n')
body('unaligned-inline', 'struct $S1 {\n    @@struct $S2 { uint8 $f1 <<[#4]||[#8]>>; };\n    uint8 $f2 <<[#4]||[#8]>>;\n};\n')
body('unaligned-after-dynamic', '@@struct $S1 { string $f3; uint16 $f1; uint8 $f2 <<[#7]||[#8]>>; };\n')
for i, t in enumerate(('string', 'bytes', '$S1', '$S1<2>', 'string<2>', 'bytes<7>', 'uint8', '$S1<1>', 'string<1>', 'bytes<1>')):
    if t != 'uint8':
        fld('unaligned-%d' % i, '    uint8 $f1 <<[#3]||[#8]>>;\n    @@%s $f2;\n    void <<[#5]||[1]>>;' % t, pre='struct $S1 { uint16 $f3; };')
fld('unaligned-dyn-later', '    string $f4;\n    uint8 $f1 <<[#3]||[#8]>>;\n    @@bytes $f2;\n    void <<[#5]||[1]>>;')
fld('unaligned-deep', '    $S2;\n    bool $f4 <<[#1]||[1]>>;\n    @@string $f2;\n    void <<[#7]||[1]>>;', pre='struct $S2 { uint8 $f3; };')

# ---- literals
for i, (t, bad, good) in enumerate((('bool', '1', 'true'), ('uint8', 'true', '1'), ('int8', '1.5', '-1'), ('float32', '1', '1.0'), ('float64', 'false', '2.5'), ('uint16', '-5', '5'), ('uint64', '-1', '1'),
                                    ('int32', '"x"', '7'), ('bool', '"true"', 'false'), ('float32', '"1.0"', '-1.0'), ('uint8', '0.0', '0'))):
    fld('const-type-%d' % i, '    %s $f1 = @@<<%s||%s>>;' % (t, bad, good))
for i, (t, z, bad, good) in enumerate((('uint8', '[1]', '-1', '1'), ('uint32', '[2]', '-5', '5'), ('uint64', '[5]', '-1', '0'), ('bool', '[1]', '1', 'true'), ('int16', '[1]', 'true', '-1'), ('uint16', '[1]', 'false', '0x10'),
                                       ('float32', '[4]', '1', '-1.5'), ('uint16', '[#8]', '1.0', '1'), ('int64', '[#40]', '2.5', '-2'), ('float64', '[8]', 'true', '0.5'))):
    fld('const-type-sized-%d' % i, '    %s $f1 %s = @@<<%s||%s>>;' % (t, z, bad, good))
    fld('const-type-anon-%d' % i, '    %s %s =\n@@<<%s||%s>>%s;' % (t, z, bad, good, ' [order = "big"]' if z.endswith('[2]') else ''))
    fld('const-type-both-%d' % i, '    %s = @@<<%s||%s>>;' % (t, bad, good))
fld('const-huge', '    uint64 $f1 = @@<<0x1ffffffffffffffff||0x1fffffffffffffff>>;')
fld('const-bad-octal', '    uint16 $f1 = @@<<089||017>>;')
fld('const-unknown', '    uint8 $f1 = @@<<$V5||$V1>>;', pre='enum $E1 [1] { $V1, };')
fld('const-not-enumerator', '    uint8 $f1 = @@<<$S1||$V1>>;', pre='enum $E1 [1] { $V1, };\nstruct $S1 { uint8 $f4; };')
fld('const-enum-name', '    uint8 $f1 = @@<<$E1||$V1>>;', pre='enum $E1 [1] { $V1, };')
fld('const-no-value', '    uint8 $f1 = @@<<||5>>;')
fld('const-string', '    @@<<string $f1 = "ab"||string $f1>>;')
fld('const-array', '    @@<<uint8<2> $f1 = 5||uint8<2> $f1>>;')
body('enumerator-float', 'enum $E1 [1] { $V1 = @@<<1.5||1>>, };\n')
body('enumerator-bool', 'enum $E1 [1] { $V1 = @@<<true||1>>, };\n')
body('enumerator-string', 'enum $E1 [1] {\n  $V1 = @@<<"1"||1>>, };\n')
body('enumerator-unknown', 'enum $E1 [1] {\n  $V1,\n  $V2 = @@<<$V5||$V6>>, };\n'.replace('$V6', '4'))
body('enumerator-ref', 'enum $E2 [1] { $V3 = 3, };\nenum $E1 [1] {\n  $V1,\n  $V2 = @@<<$E2||$V3>>, };\n')
body('enumerator-negative', 'enum $E1 [1] {\n  $V1,\n  $V2 = @@<<-2||2>>, };\n')
body('enumerator-minus-one', 'enum $E1 [1] {\n  $V1,\n  $V2 = @@<<-1||1>>, };\n')
body('enumerator-wide', 'enum $E1 [#2] {\n  $V1,\n  @@$V2 = <<4||3>>, };\n')
body('enumerator-wide-auto', 'enum $E1 [1#4] {\n  $V1 = <<0xfff||0xffe>>,\n  @@$V2, };\n')
body('enumerator-huge', 'enum $E1 [4] {\n  $V1,\n  $V2 = @@<<99999999999999999999||99>>, };\n')

# ---- field options
fld('order-value', '    int16 $f1 [@@order = <<"middle"||"little">>];')
fld('order-case', '    int16 $f1 [\n@@order = <<"BIG"||"big">>];')
fld('order-type', '    int16 $f1 [@@order = <<1||"big">>];')
fld('order-twice', '    int16 $f1 [order = "big"<<, @@order = "big"||>>];')
fld('order-const', '    int16 $f1 = 5 [@@order = <<"bog"||"big">>];')
fld('order-void', '    void [1] [@@order = <<"bog"||"big">>];')
fld('order-embed', '    $S1 [@@order = <<"bog"||"big">>];', pre='struct $S1 { uint16 $f3; };')
fld('field-option-unknown', '    int16 $f1 <<[ @@$f5 = "big"]||>>;', 'warning')
fld('field-option-unknown2', '    int16 $f1 [order = "big"<<,\n @@$f5 = 1||>>];', 'warning')

# ---- syntax
fld('no-semicolon', '    int16 $f1<<||;>>\n    @@int16 $f2;')
fld('stray-brace', '    int16 $f1;\n    @@<<{||>>')
body('stray-close', 'struct $S1 { uint8 $f1; };\n@@<<}||>>\nstruct $S2 { uint8 $f1; };\n')
body('unclosed', 'struct $S1 { uint8 $f1; <<||};>>\nstruct $S2 { uint8 $f1; };\n')
fld('stray-char', '    int16 $f1;\n    @@<<$$$$||>>')
fld('stray-string', '    int16 $f1;\n    @@<<"abc"||>>')
body('unclosed-string', 'option go_package = @@<<"abc||"abc">>;\nstruct $S1 { uint8 $f1; };\n')
body('unclosed-comment', 'struct $S1 { uint8 $f1; };\n@@/* <<||*/>>\nstruct $S2 { uint8 $f1; };\n')
body('top-level-field', 'struct $S1 { uint8 $f1; };\n@@<<uint8 $f2;||;>>\n')
body('bad-keyword', 'struct $S1 { uint8 $f1; };\n@@<<structt||struct>> $S2 { uint8 $f1; };\n')
body('keyword-name', 'struct $S1 { uint8 @@<<string||$f1>>; };\n')
body('keyword-type-name', 'struct @@<<uint8||$S1>> { uint8 $f1; };\n')
body('digit-name', 'struct $S1 { uint8 @@<<1abc||$f1>>; };\n')
body('enum-missing-comma', 'enum $E1 [1] {\n    $V1 = 1<<||,>>\n    @@$V2 = 2,\n};\n')
fld('expr-open', '    uint8 $f1 {\n        get $m1(uint8): (value + 1@@<<||)>>;\n    };')
fld('expr-empty', '    uint8 $f1 {\n        get $m1(uint8): @@<<||value>>;\n    };')
fld('expr-ident', '    uint8 $f1 {\n        get $m1(uint8): @@<<other||value>>;\n    };')
fld('expr-op', '    uint8 $f1 {\n        get $m1(uint8): value @@<<=||==>> 1 ? (uint8)1 : (uint8)0;\n    };')
fld('method-type', '    uint8 $f1 {\n        get $m1(@@<<string||uint8>>): value;\n    };')
fld('method-kind', '    uint8 $f1 {\n        @@<<put||get>> $m1(uint8): value;\n    };')

# ---- imports
body('import-missing', '\nimport @@<<"nowhere.bb"||"a.bb">>;\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nstruct $S1 { uint8 $f1; };\n')
body('import-missing-dir', '\nimport @@<<"a/a.bb"||"d/a.bb">>;\nstruct $S2 { uint8 $f1; };\n', d__a='package $p5;\nstruct $S1 { uint8 $f1; };\n')
body('import-self', '\nimport @@<<"main.bb"||"a.bb">>;\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nstruct $S1 { uint8 $f1; };\n')
body('import-self-path', '\nimport @@<<"./d/../main.bb"||"./d/../a.bb">>;\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nstruct $S1 { uint8 $f1; };\n', d__x='package $p6;\n')
body('import-cycle2', '\nimport "a.bb";\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\n<<@@import "main.bb";||>>\nstruct $S1 { uint8 $f1; };\n')
body('import-cycle3', '\nimport "a.bb";\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nimport "b.bb";\nstruct $S1 { uint8 $f1; };\n', b='package $p6;\n\n<<@@import "main.bb";||import "c.bb";>>\nstruct $S3 { uint8 $f1; };\n', c='package $p7;\nstruct $S4 { uint8 $f1; };\n')
body('import-cycle-inner', '\nimport "a.bb";\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nimport "b.bb";\nstruct $S1 { uint8 $f1; };\n', b='package $p6;\n\n<<@@import "a.bb";||>>\nstruct $S3 { uint8 $f1; };\n')
body('import-number', '\nimport @@<<5||"a.bb">>;\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nstruct $S1 { uint8 $f1; };\n')
body('import-broken', '\nimport "a.bb";\nstruct $S2 { uint8 $f1; };\n', a='package $p5;\nstruct $S1 {\n  @@<<uint9||uint8>> $f1; };\n')
body('import-broken-deep', '\nimport "d/a.bb";\nstruct $S2 { uint8 $f1; };\n', d__a='package $p5;\nimport "../b.bb";\nstruct $S1 { uint8 $f1; };\n', b='package $p6;\nstruct $S3 {\n  uint8 $f1 @@<<[9]||[1]>>;\n};\n')
body('import-warning', '\nimport "a.bb";\nstruct $S2 { uint8 $f1; };\n', 'warning', a='package $p5;\n<<@@option $f5 = 1;||>>\nstruct $S1 {\n  uint8 $f1; };\n')
body('import-warning-deep', '\nimport "d/a.bb";\nstruct $S2 { uint8 $f1; };\n', 'warning', d__a='package $p5;\nimport "../b.bb";\nstruct $S1 { uint8 $f1; };\n', b='package $p6;\nstruct $S3 {\n  uint8 @@<<camelCase||$f1>>;\n};\n')

ALT = re.compile(r'<<((?:(?!\|\|).)*?)\|\|(.*?)>>(?!>)', re.S)
WORD = ['Alpha', 'Bravo', 'Cargo', 'Delta', 'Echo', 'Frame', 'Gamma', 'Hotel', 'Index', 'Joker', 'Kappa', 'Lima', 'Motor', 'Node', 'Omega', 'Pump', 'Quad', 'Radio', 'Servo', 'Tango']


def instantiate(docs, rng, bad):
    """-> ({file: text}, (file, line) or None)"""
    names = {}
    used = set()

    def nm(m):
        k = m.group(1) + m.group(2)
        if k not in names:
            while True:
                w, n = rng.choice(WORD), rng.randrange(100)
                key = (m.group(1), w, n)
                if key not in used:
                    used.add(key)
                    break
            t = m.group(1)
            names[k] = {'S': '%s%dBox' % (w, n), 'E': '%s%dKind' % (w, n), 'V': '%s_%d' % (w.upper(), n), 'f': '%s_%d_fld' % (w.lower(), n), 'm': '%s_%d_get' % (w.lower(), n),
                        'p': '%s%dpk' % (w.lower(), n)}[t]
        return names[k]
    out, mark = {}, None
    for f, t in sorted(docs.items()):
        # the bad and the good document give the same names to the same things
        for m in re.finditer(r'\$([SEVfmp])(\d)', t.replace('$$', '')):
            nm(m)
    for f, t in sorted(docs.items()):
        t = ALT.sub(lambda m: m.group(1 if bad else 2), t)
        t = t.replace('$$', '\0')
        t = re.sub(r'\$([SEVfmp])(\d)', nm, t).replace('\0', '$')
        if '@@' in t:
            i = t.index('@@')
            mark = (f, t.count('\n', 0, i) + 1)
            t = t.replace('@@', '')
        out[f] = t
    return out, mark
