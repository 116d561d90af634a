from dsl import *
seed('c17-color-lines','C17',[('src/error.rs','''                &line[..*section_start],
                &line[*section_start..*section_end].red(),
                &line[*section_end..],
''','''                &line[..*section_start],
                if colorized && i > 0 && i + 1 < lines.len() {
                    // The first and the last line suffice, since the color is conspicuous.
                    line[*section_start..*section_end].normal()
                } else {
                    line[*section_start..*section_end].red()
                },
                &line[*section_end..],
''')],'''
printf 'struct Foo {\\n    x: U64 = 0\\n    y: U64 = 2\\n}\\n' >a.t
CLICOLOR_FORCE=1 "$typical" generate a.t >/dev/null 2>err && fail "accepted"
# Every line of the declaration is highlighted.
[ "$(grep -c "$(printf '\\033\\[31m')" err)" = 4 ] || fail "lines are not highlighted"
''','Colors, as on a terminal, and a problem that spans more than two lines.','Its inner lines are not highlighted.')
