"""Texts and the trees they give.

In the texts `<plain:3>` is three unknown characters that are in no mark-up.
Each entry is the text, the variables of the environment and the nodes: their
class, position, fields and arguments (a field that is not mentioned and is in
trees.EMPTY is empty). `S(line, a, b)` is a piece of the text, `T(line, a, b)`
a text node with that piece as its value and position."""

from .trees import J, N, S, T

DOCS = {
    'line': (
        '<plain:3>', {},
        [N('Paragraph', (0, 0, 0, 3), content=[N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)])])],
    ),
    'lines': (
        '<plain:3>\n<plain:2>\n<plain:1>', {},
        [
            N('Paragraph', (0, 0, 2, 3), content=[
                N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)]),
                N('ParagraphLine', (1, 0, 1, 2), content=[T(1, 0, 2)]),
                N('ParagraphLine', (2, 0, 2, 1), content=[T(2, 0, 1)]),
            ]),
        ],
    ),
    'paragraphs': (
        '\n\n<plain:3>\n\n\n<plain:2> <plain:2>\n\n', {},
        [
            N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])]),
            N('Paragraph', (5, 0, 5, 5), content=[N('ParagraphLine', (5, 0, 5, 5), content=[T(5, 0, 5)])]),
        ],
    ),
    'blanks before': (
        '<plain:3>\n\n  <plain:2>', {},
        [
            N('Paragraph', (0, 0, 0, 3), content=[N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)])]),
            N('Paragraph', (2, 0, 2, 4), content=[N('ParagraphLine', (2, 0, 2, 4), content=[T(2, 0, 4)])]),
        ],
    ),
    'markers inside': (
        '<plain:2> = <plain:1> * <plain:1> # <plain:1> << <plain:1> // <plain:1>', {},
        [N('Paragraph', (0, 0, 0, 24), content=[N('ParagraphLine', (0, 0, 0, 24), content=[T(0, 0, 24)])])],
    ),
    'headers': (
        '= <plain:3>\n== <plain:2>\n=== <plain:1>\n\n==== <plain:2> <plain:1>', {},
        [
            N('Header', (0, 0, 0, 5), level=1, content=[T(0, 2, 5)]),
            N('Header', (1, 0, 1, 5), level=2, content=[T(1, 3, 5)]),
            N('Header', (2, 0, 2, 5), level=3, content=[T(2, 4, 5)]),
            N('Header', (4, 0, 4, 9), level=4, content=[T(4, 5, 9)]),
        ],
    ),
    'levels': (
        '===== <plain:3>\n====== <plain:2>\n======= <plain:1>\n= <plain:2>', {},
        [
            N('Header', (0, 0, 0, 9), level=5, content=[T(0, 6, 9)]),
            N('Header', (1, 0, 1, 9), level=6, content=[T(1, 7, 9)]),
            N('Header', (2, 0, 2, 9), level=7, content=[T(2, 8, 9)]),
            N('Header', (3, 0, 3, 4), level=1, content=[T(3, 2, 4)]),
        ],
    ),
    'header between': (
        '<plain:3>\n= <plain:2>\n<plain:1>', {},
        [
            N('Paragraph', (0, 0, 0, 3), content=[N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)])]),
            N('Header', (1, 0, 1, 4), level=1, content=[T(1, 2, 4)]),
            N('Paragraph', (2, 0, 2, 1), content=[N('ParagraphLine', (2, 0, 2, 1), content=[T(2, 0, 1)])]),
        ],
    ),
    'header text': (
        '= _<plain:2>_ <plain:1>', {},
        [
            N('Header', (0, 0, 0, 8), level=1, content=[N('Style', (0, 2, 0, 6), style='underscore', content=[T(0, 3, 5)]), T(0, 6, 8)]),
        ],
    ),
    'list': (
        '* <plain:2>\n** <plain:3>\n* <plain:1>', {},
        [
            N('List', (0, 0, 2, 4), ordered=False, start=1, content=[
                N('ListItem', (0, 0, 0, 4), level=1, content=[T(0, 2, 4)]),
                N('List', (1, 0, 1, 6), ordered=False, start=1, content=[N('ListItem', (1, 0, 1, 6), level=2, content=[T(1, 3, 6)])]),
                N('ListItem', (2, 0, 2, 3), level=1, content=[T(2, 2, 3)]),
            ]),
        ],
    ),
    'ordered list': (
        '# <plain:2>\n# <plain:3>\n\n* <plain:1>', {},
        [
            N('List', (0, 0, 1, 5), ordered=True, start=1, content=[
                N('ListItem', (0, 0, 0, 4), level=1, content=[T(0, 2, 4)]),
                N('ListItem', (1, 0, 1, 5), level=1, content=[T(1, 2, 5)]),
            ]),
            N('List', (3, 0, 3, 3), ordered=False, start=1, content=[N('ListItem', (3, 0, 3, 3), level=1, content=[T(3, 2, 3)])]),
        ],
    ),
    'deep list': (
        '* <plain:2>\n** <plain:3>\n*** <plain:1>\n** <plain:2>\n* <plain:1>', {},
        [
            N('List', (0, 0, 4, 4), ordered=False, start=1, content=[
                N('ListItem', (0, 0, 0, 4), level=1, content=[T(0, 2, 4)]),
                N('List', (1, 0, 3, 5), ordered=False, start=1, content=[
                    N('ListItem', (1, 0, 1, 6), level=2, content=[T(1, 3, 6)]),
                    N('List', (2, 0, 2, 5), ordered=False, start=1, content=[N('ListItem', (2, 0, 2, 5), level=3, content=[T(2, 4, 5)])]),
                    N('ListItem', (3, 0, 3, 5), level=2, content=[T(3, 3, 5)]),
                ]),
                N('ListItem', (4, 0, 4, 3), level=1, content=[T(4, 2, 3)]),
            ]),
        ],
    ),
    'mixed list': (
        '# <plain:2>\n** <plain:3>\n## <plain:1>', {},
        [
            N('List', (0, 0, 2, 4), ordered=True, start=1, content=[
                N('ListItem', (0, 0, 0, 4), level=1, content=[T(0, 2, 4)]),
                N('List', (1, 0, 2, 4), ordered=False, start=1, content=[
                    N('ListItem', (1, 0, 1, 6), level=2, content=[T(1, 3, 6)]),
                    N('ListItem', (2, 0, 2, 4), level=2, content=[T(2, 3, 4)]),
                ]),
            ]),
        ],
    ),
    'list text': (
        '* <plain:1> *<plain:2>*\n* `<plain:3>`', {},
        [
            N('List', (0, 0, 1, 8), ordered=False, start=1, content=[
                N('ListItem', (0, 0, 0, 8), level=1, content=[T(0, 2, 4), N('Style', (0, 4, 0, 8), style='star', content=[T(0, 5, 7)])]),
                N('ListItem', (1, 0, 1, 7), level=1, content=[N('Verbatim', (1, 2, 1, 7), value=S(1, 3, 6))]),
            ]),
        ],
    ),
    'list between': (
        '<plain:3>\n* <plain:2>\n\n<plain:1>', {},
        [
            N('Paragraph', (0, 0, 0, 3), content=[N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)])]),
            N('List', (1, 0, 1, 4), ordered=False, start=1, content=[N('ListItem', (1, 0, 1, 4), level=1, content=[T(1, 2, 4)])]),
            N('Paragraph', (3, 0, 3, 1), content=[N('ParagraphLine', (3, 0, 3, 1), content=[T(3, 0, 1)])]),
        ],
    ),
    'two lists': (
        '* <plain:1>\n\n* <plain:2>\n\n<plain:3>', {},
        [
            N('List', (0, 0, 0, 3), ordered=False, start=1, content=[N('ListItem', (0, 0, 0, 3), level=1, content=[T(0, 2, 3)])]),
            N('List', (2, 0, 2, 4), ordered=False, start=1, content=[N('ListItem', (2, 0, 2, 4), level=1, content=[T(2, 2, 4)])]),
            N('Paragraph', (4, 0, 4, 3), content=[N('ParagraphLine', (4, 0, 4, 3), content=[T(4, 0, 3)])]),
        ],
    ),
    'rule': (
        '<plain:2>\n---\n<plain:3>\n---', {},
        [
            N('Paragraph', (0, 0, 0, 2), content=[N('ParagraphLine', (0, 0, 0, 2), content=[T(0, 0, 2)])]),
            N('HorizontalRule', (1, 0, 1, 3)),
            N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])]),
            N('HorizontalRule', (3, 0, 3, 3)),
        ],
    ),
    'block': (
        '----\n<plain:3>\n----\n<plain:2>', {},
        [
            N('Block', (0, 0, 2, 4), content=[N('Paragraph', (1, 0, 1, 3), content=[N('ParagraphLine', (1, 0, 1, 3), content=[T(1, 0, 3)])])]),
            N('Paragraph', (3, 0, 3, 2), content=[N('ParagraphLine', (3, 0, 3, 2), content=[T(3, 0, 2)])]),
        ],
    ),
    'empty block': (
        '----\n----\n<plain:3>', {},
        [
            N('Block', (0, 0, 1, 4)),
            N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])]),
        ],
    ),
    'block at the end': (
        '<plain:2>\n----\n<plain:3>\n----', {},
        [
            N('Paragraph', (0, 0, 0, 2), content=[N('ParagraphLine', (0, 0, 0, 2), content=[T(0, 0, 2)])]),
            N('Block', (1, 0, 3, 4), content=[N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])])]),
        ],
    ),
    'block of elements': (
        '----\n= <plain:2>\n\n* <plain:1>\n\n---\n<plain:3>\n<plain:2>\n----', {},
        [
            N('Block', (0, 0, 8, 4), content=[
                N('Header', (1, 0, 1, 4), level=1, content=[T(1, 2, 4)]),
                N('List', (3, 0, 3, 3), ordered=False, start=1, content=[N('ListItem', (3, 0, 3, 3), level=1, content=[T(3, 2, 3)])]),
                N('HorizontalRule', (5, 0, 5, 3)),
                N('Paragraph', (6, 0, 7, 3), content=[
                    N('ParagraphLine', (6, 0, 6, 3), content=[T(6, 0, 3)]),
                    N('ParagraphLine', (7, 0, 7, 2), content=[T(7, 0, 2)]),
                ]),
            ]),
        ],
    ),
    'nested blocks': (
        '####\n<plain:3>\n\n----\n= <plain:2>\n\n----\n<plain:1>\n####\n\n* <plain:2>', {},
        [
            N('Block', (0, 0, 8, 4), content=[
                N('Paragraph', (1, 0, 1, 3), content=[N('ParagraphLine', (1, 0, 1, 3), content=[T(1, 0, 3)])]),
                N('Block', (3, 0, 6, 4), content=[N('Header', (4, 0, 4, 4), level=1, content=[T(4, 2, 4)])]),
                N('Paragraph', (7, 0, 7, 1), content=[N('ParagraphLine', (7, 0, 7, 1), content=[T(7, 0, 1)])]),
            ]),
            N('List', (10, 0, 10, 4), ordered=False, start=1, content=[N('ListItem', (10, 0, 10, 4), level=1, content=[T(10, 2, 4)])]),
        ],
    ),
    'two blocks': (
        '----\n<plain:3>\n----\n----\n<plain:2>\n----', {},
        [
            N('Block', (0, 0, 2, 4), content=[N('Paragraph', (1, 0, 1, 3), content=[N('ParagraphLine', (1, 0, 1, 3), content=[T(1, 0, 3)])])]),
            N('Block', (3, 0, 5, 4), content=[N('Paragraph', (4, 0, 4, 2), content=[N('ParagraphLine', (4, 0, 4, 2), content=[T(4, 0, 2)])])]),
        ],
    ),
    'blank lines in a block': (
        '----\n\n\n<plain:3>\n\n\n<plain:2>\n\n----', {},
        [
            N('Block', (0, 0, 8, 4), content=[
                N('Paragraph', (3, 0, 3, 3), content=[N('ParagraphLine', (3, 0, 3, 3), content=[T(3, 0, 3)])]),
                N('Paragraph', (6, 0, 6, 2), content=[N('ParagraphLine', (6, 0, 6, 2), content=[T(6, 0, 2)])]),
            ]),
        ],
    ),
    'comment': (
        '// <plain:3>\n<plain:2>', {},
        [N('Paragraph', (1, 0, 1, 2), content=[N('ParagraphLine', (1, 0, 1, 2), content=[T(1, 0, 2)])])],
    ),
    'comment inside': (
        '<plain:2>\n// <plain:1>\n<plain:3>', {},
        [
            N('Paragraph', (0, 0, 2, 3), content=[
                N('ParagraphLine', (0, 0, 0, 2), content=[T(0, 0, 2)]),
                N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)]),
            ]),
        ],
    ),
    'comments': (
        '<plain:2>\n\n////\n= <plain:3>\n\n* <plain:2>\n////\n<plain:3>', {},
        [
            N('Paragraph', (0, 0, 0, 2), content=[N('ParagraphLine', (0, 0, 0, 2), content=[T(0, 0, 2)])]),
            N('Paragraph', (7, 0, 7, 3), content=[N('ParagraphLine', (7, 0, 7, 3), content=[T(7, 0, 3)])]),
        ],
    ),
    'comment without blank': (
        '//<plain:3>\n<plain:2>', {},
        [N('Paragraph', (1, 0, 1, 2), content=[N('ParagraphLine', (1, 0, 1, 2), content=[T(1, 0, 2)])])],
    ),
    'variables': (
        ':abc:<plain:3>\n:abc.def:<plain:2>\n<plain:3>', {},
        [N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])])],
    ),
    'variable between': (
        '<plain:3>\n:abc:<plain:2>\n<plain:1>', {},
        [
            N('Paragraph', (0, 0, 0, 3), content=[N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)])]),
            N('Paragraph', (2, 0, 2, 1), content=[N('ParagraphLine', (2, 0, 2, 1), content=[T(2, 0, 1)])]),
        ],
    ),
    'labels': (
        '. <plain:3>\n.role <plain:2> _<plain:1>_\n<plain:2>', {},
        [
            N('Paragraph', (2, 0, 2, 2), labels={'title': N('Label', role='title', content=[T(0, 2, 5)]), 'role': N('Label', role='role', content=[T(1, 6, 9), N('Style', (1, 9, 1, 12), style='underscore', content=[T(1, 10, 11)])])}, content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])]),
        ],
    ),
    'label of a header': (
        '. <plain:3>\n= <plain:2>\n<plain:1>', {},
        [
            N('Header', (1, 0, 1, 4), level=1, content=[T(1, 2, 4)], labels={'title': N('Label', role='title', content=[T(0, 2, 5)])}),
            N('Paragraph', (2, 0, 2, 1), content=[N('ParagraphLine', (2, 0, 2, 1), content=[T(2, 0, 1)])]),
        ],
    ),
    'label of a list': (
        '.role <plain:3>\n* <plain:2>\n\n<plain:1>', {},
        [
            N('List', (1, 0, 1, 4), ordered=False, start=1, content=[N('ListItem', (1, 0, 1, 4), level=1, content=[T(1, 2, 4)])], labels={'role': N('Label', role='role', content=[T(0, 6, 9)])}),
            N('Paragraph', (3, 0, 3, 1), content=[N('ParagraphLine', (3, 0, 3, 1), content=[T(3, 0, 1)])]),
        ],
    ),
    'label of a block': (
        '. <plain:3>\n----\n. <plain:2>\n<plain:1>\n----\n<plain:3>', {},
        [
            N('Block', (1, 0, 4, 4), labels={'title': N('Label', role='title', content=[T(0, 2, 5)])}, content=[
                N('Paragraph', (3, 0, 3, 1), labels={'title': N('Label', role='title', content=[T(2, 2, 4)])}, content=[N('ParagraphLine', (3, 0, 3, 1), content=[T(3, 0, 1)])]),
            ]),
            N('Paragraph', (5, 0, 5, 3), content=[N('ParagraphLine', (5, 0, 5, 3), content=[T(5, 0, 3)])]),
        ],
    ),
    'label of a rule': (
        '. <plain:3>\n---\n<plain:2>', {},
        [
            N('HorizontalRule', (1, 0, 1, 3), labels={'title': N('Label', role='title', content=[T(0, 2, 5)])}),
            N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])]),
        ],
    ),
    'label of an include': (
        '. <plain:3>\n<< image:/<plain:2>\n<plain:2>', {},
        [
            N('IncludeImage', (1, 0, 1, 8), uri=S(1, 9, 12), labels={'title': N('Label', role='title', content=[T(0, 2, 5)])}),
            N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])]),
        ],
    ),
    'arguments': (
        '[*abc, #t1, #t2, key=<plain:3>]\n<plain:2>\n\n<plain:1>', {},
        [
            N('Paragraph', (1, 0, 1, 2), args={'named_args': {'key': S(0, 21, 24)}, 'tags': ['t1', 't2'], 'subtype': 'abc'}, content=[N('ParagraphLine', (1, 0, 1, 2), content=[T(1, 0, 2)])]),
            N('Paragraph', (3, 0, 3, 1), content=[N('ParagraphLine', (3, 0, 3, 1), content=[T(3, 0, 1)])]),
        ],
    ),
    'arguments of a header': (
        '[<plain:3>, key=<plain:2>]\n= <plain:2>\n<plain:1>', {},
        [
            N('Header', (1, 0, 1, 4), args={'unnamed_args': [S(0, 1, 4)], 'named_args': {'key': S(0, 10, 12)}}, level=1, content=[T(1, 2, 4)]),
            N('Paragraph', (2, 0, 2, 1), content=[N('ParagraphLine', (2, 0, 2, 1), content=[T(2, 0, 1)])]),
        ],
    ),
    'arguments of a list': (
        '[#t1, key=<plain:2>]\n# <plain:2>\n\n# <plain:1>', {},
        [
            N('List', (1, 0, 1, 4), args={'named_args': {'key': S(0, 10, 12)}, 'tags': ['t1']}, ordered=True, start=1, content=[N('ListItem', (1, 0, 1, 4), level=1, content=[T(1, 2, 4)])]),
            N('List', (3, 0, 3, 3), ordered=True, start=1, content=[N('ListItem', (3, 0, 3, 3), level=1, content=[T(3, 2, 3)])]),
        ],
    ),
    'arguments of a block': (
        '[<plain:3>, #t1]\n----\n[key=<plain:2>]\n<plain:1>\n----\n\n<plain:2>', {},
        [
            N('Block', (1, 0, 4, 4), args={'unnamed_args': [S(0, 1, 4)], 'tags': ['t1']}, content=[
                N('Paragraph', (3, 0, 3, 1), args={'named_args': {'key': S(2, 5, 7)}}, content=[N('ParagraphLine', (3, 0, 3, 1), content=[T(3, 0, 1)])]),
            ]),
            N('Paragraph', (6, 0, 6, 2), content=[N('ParagraphLine', (6, 0, 6, 2), content=[T(6, 0, 2)])]),
        ],
    ),
    'arguments of a rule': (
        '[*abc]\n---\n<plain:2>', {},
        [
            N('HorizontalRule', (1, 0, 1, 3), args={'subtype': 'abc'}),
            N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])]),
        ],
    ),
    'arguments and label': (
        '[*abc]\n. <plain:3>\n* <plain:2>', {},
        [
            N('List', (2, 0, 2, 4), args={'subtype': 'abc'}, ordered=False, start=1, content=[N('ListItem', (2, 0, 2, 4), level=1, content=[T(2, 2, 4)])], labels={'title': N('Label', role='title', content=[T(1, 2, 5)])}),
        ],
    ),
    'true control': (
        '@if abc==x\n= <plain:3>\n<plain:2>', {'abc': 'x'},
        [
            N('Header', (1, 0, 1, 5), level=1, content=[T(1, 2, 5)]),
            N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])]),
        ],
    ),
    'false control': (
        '@if abc==y\n= <plain:3>\n<plain:2>', {'abc': 'x'},
        [N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])])],
    ),
    'false control of a block': (
        '@if abc==y\n----\n<plain:3>\n\n= <plain:1>\n----\n<plain:2>', {'abc': 'x'},
        [N('Paragraph', (6, 0, 6, 2), content=[N('ParagraphLine', (6, 0, 6, 2), content=[T(6, 0, 2)])])],
    ),
    'false control of a paragraph': (
        '@if abc!=x\n<plain:3>\n<plain:2>\n\n<plain:1>', {'abc': 'x'},
        [N('Paragraph', (4, 0, 4, 1), content=[N('ParagraphLine', (4, 0, 4, 1), content=[T(4, 0, 1)])])],
    ),
    'false control of a list': (
        '@if abc==y\n* <plain:3>\n** <plain:2>\n\n* <plain:1>', {'abc': 'x'},
        [
            N('List', (4, 0, 4, 3), ordered=False, start=1, content=[N('ListItem', (4, 0, 4, 3), level=1, content=[T(4, 2, 3)])]),
        ],
    ),
    'image': (
        '<< image:/<plain:3>\n<plain:2>', {},
        [
            N('IncludeImage', (0, 0, 0, 8), uri=S(0, 9, 13)),
            N('Paragraph', (1, 0, 1, 2), content=[N('ParagraphLine', (1, 0, 1, 2), content=[T(1, 0, 2)])]),
        ],
    ),
    'image options': (
        '<< image:/<plain:3>, <plain:2>\n\n<< image:/<plain:1>, alt_text=<plain:2>, classes="abc,def"', {},
        [
            N('IncludeImage', (0, 0, 0, 8), uri=S(0, 9, 13), alt_text=S(0, 15, 17)),
            N('IncludeImage', (2, 0, 2, 8), uri=S(2, 9, 11), alt_text=S(2, 22, 24), classes=['abc', 'def']),
        ],
    ),
    'image arguments': (
        '[/<plain:2>, #t1]\n<< image\n<plain:3>', {},
        [
            N('IncludeImage', (1, 0, 1, 8), args={'tags': ['t1']}, uri=S(0, 1, 4)),
            N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])]),
        ],
    ),
    'toc': (
        '= <plain:3>\n\n<< toc\n\n<plain:2>', {},
        [
            N('Header', (0, 0, 0, 5), level=1, content=[T(0, 2, 5)]),
            N('Toc', (2, 0, 2, 6), nested_entries=[N('TocItem', header=N('Header', (0, 0, 0, 5), level=1, content=[T(0, 2, 5)]))], plain_entries=[N('Header', (0, 0, 0, 5), level=1, content=[T(0, 2, 5)])]),
            N('Paragraph', (4, 0, 4, 2), content=[N('ParagraphLine', (4, 0, 4, 2), content=[T(4, 0, 2)])]),
        ],
    ),
    'nested toc': (
        '<< toc\n\n= <plain:3>\n\n== <plain:2>\n\n= <plain:1>', {},
        [
            N('Toc', (0, 0, 0, 6), nested_entries=[
                N('TocItem', header=N('Header', (2, 0, 2, 5), level=1, content=[T(2, 2, 5)]), entries=[N('TocItem', header=N('Header', (4, 0, 4, 5), level=2, content=[T(4, 3, 5)]))]),
                N('TocItem', header=N('Header', (6, 0, 6, 3), level=1, content=[T(6, 2, 3)])),
            ], plain_entries=[
                N('Header', (2, 0, 2, 5), level=1, content=[T(2, 2, 5)]),
                N('Header', (4, 0, 4, 5), level=2, content=[T(4, 3, 5)]),
                N('Header', (6, 0, 6, 3), level=1, content=[T(6, 2, 3)]),
            ]),
            N('Header', (2, 0, 2, 5), level=1, content=[T(2, 2, 5)]),
            N('Header', (4, 0, 4, 5), level=2, content=[T(4, 3, 5)]),
            N('Header', (6, 0, 6, 3), level=1, content=[T(6, 2, 3)]),
        ],
    ),
    'footnotes': (
        '<plain:2> [footnote](abc)\n\n[abc, alias=abc, engine=default, footnote=abc]\n----\n<plain:3>\n----\n\n<< footnotes', {},
        [
            N('Paragraph', (0, 0, 0, 18), content=[
                N('ParagraphLine', (0, 0, 0, 18), content=[
                    T(0, 0, 3),
                    N('MacroFootnote', (0, 3, 0, 18), name='abc', footnote=N('Footnote', name='abc', public_id='1', content=[N('Paragraph', (4, 0, 4, 3), content=[N('ParagraphLine', (4, 0, 4, 3), content=[T(4, 0, 3)])])])),
                ]),
            ]),
            N('Footnotes', (7, 0, 7, 12), footnotes=[
                N('FootnotesItem', footnote=N('Footnote', name='abc', public_id='1', content=[N('Paragraph', (4, 0, 4, 3), content=[N('ParagraphLine', (4, 0, 4, 3), content=[T(4, 0, 3)])])])),
            ]),
        ],
    ),
    'group': (
        '[group=abc, position=one]\n----\n<plain:3>\n----\n\n<plain:2>\n\n<< blockgroup:abc', {},
        [
            N('Paragraph', (5, 0, 5, 2), content=[N('ParagraphLine', (5, 0, 5, 2), content=[T(5, 0, 2)])]),
            N('BlockGroup', (7, 0, 7, 13), name='abc', items={'one': N('BlockGroupItem', group='abc', position='one', block=N('Block', (1, 0, 3, 4), args={'named_args': {'group': 'abc', 'position': 'one'}}, content=[N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])])]))}),
        ],
    ),
    'two in a group': (
        '<< blockgroup:abc\n\n[group=abc, position=one]\n----\n<plain:3>\n----\n\n[group=abc, position=two]\n----\n<plain:2>\n----', {},
        [
            N('BlockGroup', (0, 0, 0, 13), name='abc', items={'one': N('BlockGroupItem', group='abc', position='one', block=N('Block', (3, 0, 5, 4), args={'named_args': {'group': 'abc', 'position': 'one'}}, content=[N('Paragraph', (4, 0, 4, 3), content=[N('ParagraphLine', (4, 0, 4, 3), content=[T(4, 0, 3)])])])), 'two': N('BlockGroupItem', group='abc', position='two', block=N('Block', (8, 0, 10, 4), args={'named_args': {'group': 'abc', 'position': 'two'}}, content=[N('Paragraph', (9, 0, 9, 2), content=[N('ParagraphLine', (9, 0, 9, 2), content=[T(9, 0, 2)])])]))}),
        ],
    ),
    'raw': (
        '[engine=raw]\n----\n<plain:3>\n\n  = <plain:2>\n[<plain:1>]\n----\n<plain:2>', {},
        [
            N('Raw', (1, 0, 6, 4), content=[
                N('RawLine', (2, 0, 2, 3), value=S(2, 0, 3)),
                N('RawLine', (3, 0, 3, 0)),
                N('RawLine', (4, 0, 4, 6), value=S(4, 0, 6)),
                N('RawLine', (5, 0, 5, 3), value=S(5, 0, 3)),
            ]),
            N('Paragraph', (7, 0, 7, 2), content=[N('ParagraphLine', (7, 0, 7, 2), content=[T(7, 0, 2)])]),
        ],
    ),
    'source': (
        '[python, engine=source]\n----\n<plain:3>\n\n  <plain:2>:1:\n----\n<plain:1>', {},
        [
            N('Source', (1, 0, 5, 4), language='python', content=[
                N('SourceLine', (2, 0, 2, 3), line_number='1', line_content=S(2, 0, 3)),
                N('SourceLine', (3, 0, 3, 0), line_number='2'),
                N('SourceLine', (4, 0, 4, 4), line_number='3', line_content=S(4, 0, 4), marker=N('SourceMarker', (4, 4, 4, 7), value='1')),
            ]),
            N('Paragraph', (6, 0, 6, 1), content=[N('ParagraphLine', (6, 0, 6, 1), content=[T(6, 0, 1)])]),
        ],
    ),
    'source delimiter': (
        '[engine=source, marker_delimiter="||"]\n----\n<plain:3>||1||\n<plain:2>:1:\n<plain:2>||@zz||\n----', {},
        [
            N('Source', (1, 0, 5, 4), language='text', content=[
                N('SourceLine', (2, 0, 2, 3), line_number='1', line_content=S(2, 0, 3), marker=N('SourceMarker', (2, 3, 2, 8), value='1')),
                N('SourceLine', (3, 0, 3, 5), line_number='2', line_content=S(3, 0, 5)),
                N('SourceLine', None, line_number='3', line_content=S(4, 0, 2), highlight_style='zz'),
            ]),
        ],
    ),
    'source label': (
        '. <plain:2>\n[engine=source, key=<plain:3>]\n----\n= <plain:2>\n----', {},
        [
            N('Source', (2, 0, 4, 4), args={'named_args': {'key': S(1, 20, 23)}}, language='text', content=[N('SourceLine', (3, 0, 3, 4), line_number='1', line_content=S(3, 0, 4))], labels={'title': N('Label', role='title', content=[T(0, 2, 4)])}),
        ],
    ),
    'link to a header': (
        '[name=abc]\n= <plain:3>\n\n<plain:2> [header](abc)', {},
        [
            N('Header', (1, 0, 1, 5), level=1, content=[T(1, 2, 5)], name='abc'),
            N('Paragraph', (3, 0, 3, 16), content=[
                N('ParagraphLine', (3, 0, 3, 16), content=[
                    T(3, 0, 3),
                    N('MacroHeader', (3, 3, 3, 16), target_name='abc', header=N('Header', (1, 0, 1, 5), level=1, content=[T(1, 2, 5)], name='abc'), content=[T(1, 2, 5)]),
                ]),
            ]),
        ],
    ),
    'link before the header': (
        '[header](abc, <plain:2>) <plain:1>\n\n[name=abc]\n= <plain:3>', {},
        [
            N('Paragraph', (0, 0, 0, 19), content=[
                N('ParagraphLine', (0, 0, 0, 19), content=[
                    N('MacroHeader', (0, 0, 0, 17), target_name='abc', content=[T(0, 14, 16)], header=N('Header', (3, 0, 3, 5), level=1, content=[T(3, 2, 5)], name='abc')),
                    T(0, 17, 19),
                ]),
            ]),
            N('Header', (3, 0, 3, 5), level=1, content=[T(3, 2, 5)], name='abc'),
        ],
    ),
    'macros': (
        '<plain:1> [link](/<plain:2>, <plain:3>) <plain:2>', {},
        [
            N('Paragraph', (0, 0, 0, 21), content=[
                N('ParagraphLine', (0, 0, 0, 21), content=[
                    T(0, 0, 2),
                    N('MacroLink', (0, 2, 0, 18), target=S(0, 9, 12), content=[T(0, 14, 17)]),
                    T(0, 18, 21),
                ]),
            ]),
        ],
    ),
    'styles': (
        '_<plain:2>_\n*<plain:1>* `<plain:2>`', {},
        [
            N('Paragraph', (0, 0, 1, 8), content=[
                N('ParagraphLine', (0, 0, 0, 4), content=[N('Style', (0, 0, 0, 4), style='underscore', content=[T(0, 1, 3)])]),
                N('ParagraphLine', (1, 0, 1, 8), content=[
                    N('Style', (1, 0, 1, 3), style='star', content=[T(1, 1, 2)]),
                    T(1, 3, 4),
                    N('Verbatim', (1, 4, 1, 8), value=S(1, 5, 7)),
                ]),
            ]),
        ],
    ),
    'style across lines': (
        '<plain:1> _<plain:2>\n<plain:3>_', {},
        [
            N('Paragraph', (0, 0, 1, 5), content=[
                N('ParagraphLine', (0, 0, 0, 5), content=[T(0, 0, 5)]),
                N('ParagraphLine', (1, 0, 1, 4), content=[T(1, 0, 4)]),
            ]),
        ],
    ),
    'everything': (
        '= <plain:2>\n\n:abc:<plain:1>\n. <plain:3>\n<plain:3>\n\n// <plain:2>\n* <plain:2>\n\n---\n\n[*def]\n----\n<plain:1>\n----\n\n<< image:/<plain:2>\n', {},
        [
            N('Header', (0, 0, 0, 4), level=1, content=[T(0, 2, 4)]),
            N('Paragraph', (4, 0, 4, 3), labels={'title': N('Label', role='title', content=[T(3, 2, 5)])}, content=[N('ParagraphLine', (4, 0, 4, 3), content=[T(4, 0, 3)])]),
            N('List', (7, 0, 7, 4), ordered=False, start=1, content=[N('ListItem', (7, 0, 7, 4), level=1, content=[T(7, 2, 4)])]),
            N('HorizontalRule', (9, 0, 9, 3)),
            N('Block', (12, 0, 14, 4), args={'subtype': 'def'}, content=[
                N('Paragraph', (13, 0, 13, 1), content=[N('ParagraphLine', (13, 0, 13, 1), content=[T(13, 0, 1)])]),
            ]),
            N('IncludeImage', (16, 0, 16, 8), uri=S(16, 9, 12)),
        ],
    ),
    'replaced variable': (
        ':abc:<plain:3>\n<plain:2> {abc}\n<plain:1>', {},
        [
            N('Paragraph', (1, 0, 2, 8), content=[
                N('ParagraphLine', (1, 0, 1, 8), content=[N('Text', value=J(S(1, 0, 3), S(0, 5, 8)))]),
                N('ParagraphLine', (2, 0, 2, 1), content=[T(2, 0, 1)]),
            ]),
        ],
    ),
    'variable in a header': (
        '= {abc}\n<plain:2>', {'abc': 'def'},
        [
            N('Header', level=1, content=[N('Text', value='def')]),
            N('Paragraph', (1, 0, 1, 2), content=[N('ParagraphLine', (1, 0, 1, 2), content=[T(1, 0, 2)])]),
        ],
    ),
    'empty': (
        '', {},
        [],
    ),
    'blank': (
        '\n\n', {},
        [],
    ),
    'same lines': (
        'abc\nabc def\nabc def\nabc', {},
        [
            N('Paragraph', (0, 0, 3, 3), content=[
                N('ParagraphLine', (0, 0, 0, 3), content=[T(0, 0, 3)]),
                N('ParagraphLine', (1, 0, 1, 7), content=[T(1, 0, 7)]),
                N('ParagraphLine', (2, 0, 2, 7), content=[T(2, 0, 7)]),
                N('ParagraphLine', (3, 0, 3, 3), content=[T(3, 0, 3)]),
            ]),
        ],
    ),
    'same elements': (
        '= abc\n= abc\n\nabc\n\nabc\n\n---\n---\n\n* abc\n* abc', {},
        [
            N('Header', (0, 0, 0, 5), level=1, content=[T(0, 2, 5)]),
            N('Header', (1, 0, 1, 5), level=1, content=[T(1, 2, 5)]),
            N('Paragraph', (3, 0, 3, 3), content=[N('ParagraphLine', (3, 0, 3, 3), content=[T(3, 0, 3)])]),
            N('Paragraph', (5, 0, 5, 3), content=[N('ParagraphLine', (5, 0, 5, 3), content=[T(5, 0, 3)])]),
            N('HorizontalRule', (7, 0, 7, 3)),
            N('HorizontalRule', (8, 0, 8, 3)),
            N('List', (10, 0, 11, 5), ordered=False, start=1, content=[
                N('ListItem', (10, 0, 10, 5), level=1, content=[T(10, 2, 5)]),
                N('ListItem', (11, 0, 11, 5), level=1, content=[T(11, 2, 5)]),
            ]),
        ],
    ),
    'blank at the end': (
        '<plain:2>  \n  <plain:3>  ', {},
        [
            N('Paragraph', (0, 0, 1, 7), content=[
                N('ParagraphLine', (0, 0, 0, 4), content=[T(0, 0, 2)]),
                N('ParagraphLine', (1, 0, 1, 7), content=[T(1, 0, 5)]),
            ]),
        ],
    ),
    'list item blanks': (
        '*   <plain:2>  \n*  <plain:3> <plain:1>', {},
        [
            N('List', (0, 0, 1, 8), ordered=False, start=1, content=[
                N('ListItem', (0, 0, 0, 6), level=1, content=[T(0, 4, 6)]),
                N('ListItem', (1, 0, 1, 8), level=1, content=[T(1, 3, 8)]),
            ]),
        ],
    ),
    'header blanks': (
        '=   <plain:2>  <plain:1>  \n<plain:3>', {},
        [
            N('Header', (0, 0, 0, 9), level=1, content=[T(0, 4, 9)]),
            N('Paragraph', (1, 0, 1, 3), content=[N('ParagraphLine', (1, 0, 1, 3), content=[T(1, 0, 3)])]),
        ],
    ),
    'raw blanks': (
        '[engine=raw]\n----\n  <plain:2>  \n \n\n<plain:3>\n----', {},
        [
            N('Raw', (1, 0, 6, 4), content=[
                N('RawLine', (2, 0, 2, 6), value=S(2, 0, 6)),
                N('RawLine', (3, 0, 3, 1), value=' '),
                N('RawLine', (4, 0, 4, 0)),
                N('RawLine', (5, 0, 5, 3), value=S(5, 0, 3)),
            ]),
        ],
    ),
    'source blanks': (
        '[engine=source]\n----\n  <plain:2>  \n \n\n<plain:3>\n----', {},
        [
            N('Source', (1, 0, 6, 4), language='text', content=[
                N('SourceLine', (2, 0, 2, 6), line_number='1', line_content=S(2, 0, 6)),
                N('SourceLine', (3, 0, 3, 1), line_number='2', line_content=' '),
                N('SourceLine', (4, 0, 4, 0), line_number='3'),
                N('SourceLine', (5, 0, 5, 3), line_number='4', line_content=S(5, 0, 3)),
            ]),
        ],
    ),
    'alias source': (
        '[@source]\n----\n<plain:2>\n<plain:3>\n----', {},
        [
            N('Source', (1, 0, 4, 4), language='text', content=[
                N('SourceLine', (2, 0, 2, 2), line_number='1', line_content=S(2, 0, 2)),
                N('SourceLine', (3, 0, 3, 3), line_number='2', line_content=S(3, 0, 3)),
            ]),
        ],
    ),
    'alias source language': (
        '[@source, python, #tag]\n----\n<plain:2>\n----', {},
        [
            N('Source', (1, 0, 3, 4), args={'tags': ['tag']}, language='python', content=[N('SourceLine', (2, 0, 2, 2), line_number='1', line_content=S(2, 0, 2))]),
        ],
    ),
    'alias source given': (
        '[@source, engine=default]\n----\n<plain:3>\n----', {},
        [
            N('Block', (1, 0, 3, 4), content=[N('Paragraph', (2, 0, 2, 3), content=[N('ParagraphLine', (2, 0, 2, 3), content=[T(2, 0, 3)])])]),
        ],
    ),
    'alias admonition': (
        '[@note]\n<plain:3>\n\n[@note, *other]\n<plain:2>', {'mau': {'parser': {'aliases': {'note': {'subtype': 'note', 'args': {'cls': 'info'}, 'names': ['icon']}}}}},
        [
            N('Paragraph', (1, 0, 1, 3), args={'named_args': {'cls': 'info'}, 'subtype': 'note'}, content=[N('ParagraphLine', (1, 0, 1, 3), content=[T(1, 0, 3)])]),
            N('Paragraph', (4, 0, 4, 2), args={'named_args': {'cls': 'info'}, 'subtype': 'other'}, content=[N('ParagraphLine', (4, 0, 4, 2), content=[T(4, 0, 2)])]),
        ],
    ),
    'alias own names': (
        '[@box, abc, def]\n----\n<plain:2>\n----\n\n[@box, left=abc]\n<plain:2>', {'mau': {'parser': {'aliases': {'box': {'names': ['left', 'right'], 'args': {'right': 'xyz'}}}}}},
        [
            N('Block', (1, 0, 3, 4), args={'unnamed_args': ['def'], 'named_args': {'right': 'xyz', 'left': 'abc'}}, content=[N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])])]),
            N('Paragraph', (6, 0, 6, 2), args={'named_args': {'left': 'abc', 'right': 'xyz'}}, content=[N('ParagraphLine', (6, 0, 6, 2), content=[T(6, 0, 2)])]),
        ],
    ),
    'alias own source': (
        '[@source, abc]\n----\n<plain:2>\n----\n\n[@quote]\n----\n<plain:2>\n----', {'mau': {'parser': {'aliases': {'quote': {'subtype': 'quote'}}}}},
        [
            N('Source', (1, 0, 3, 4), language='abc', content=[N('SourceLine', (2, 0, 2, 2), line_number='1', line_content=S(2, 0, 2))]),
            N('Block', (6, 0, 8, 4), args={'subtype': 'quote'}, content=[N('Paragraph', (7, 0, 7, 2), content=[N('ParagraphLine', (7, 0, 7, 2), content=[T(7, 0, 2)])])]),
        ],
    ),
    'alias in title': (
        '. <plain:2>\n[@source, python]\n----\n<plain:1>\n----', {},
        [
            N('Source', (2, 0, 4, 4), language='python', content=[N('SourceLine', (3, 0, 3, 1), line_number='1', line_content=S(3, 0, 1))], labels={'title': N('Label', role='title', content=[T(0, 2, 4)])}),
        ],
    ),
    'block classes': (
        '[abc, classes="one,two three", k=v]\n----\n<plain:2>\n----\n\n[classes=one, engine=raw]\n----\n<plain:2>\n----', {},
        [
            N('Block', (1, 0, 3, 4), args={'unnamed_args': ['abc'], 'named_args': {'k': 'v'}}, classes=['one', 'two three'], content=[N('Paragraph', (2, 0, 2, 2), content=[N('ParagraphLine', (2, 0, 2, 2), content=[T(2, 0, 2)])])]),
            N('Raw', (6, 0, 8, 4), classes=['one'], content=[N('RawLine', (7, 0, 7, 2), value=S(7, 0, 2))]),
        ],
    ),
}


TEXTS = {
    'words': (
        '<plain:3> <plain:2> <plain:1>', {},
        [T(0, 0, 8)],
    ),
    'blanks': (
        '<plain:2>   <plain:3>', {},
        [T(0, 0, 8)],
    ),
    'underscore': (
        '_<plain:3>_', {},
        [N('Style', (0, 0, 0, 5), style='underscore', content=[T(0, 1, 4)])],
    ),
    'star': (
        '*<plain:3>*', {},
        [N('Style', (0, 0, 0, 5), style='star', content=[T(0, 1, 4)])],
    ),
    'tilde': (
        '~<plain:2>~', {},
        [N('Style', (0, 0, 0, 4), style='tilde', content=[T(0, 1, 3)])],
    ),
    'caret': (
        '^<plain:2>^', {},
        [N('Style', (0, 0, 0, 4), style='caret', content=[T(0, 1, 3)])],
    ),
    'style inside': (
        '<plain:2> *<plain:3>* <plain:1>', {},
        [T(0, 0, 3), N('Style', (0, 3, 0, 8), style='star', content=[T(0, 4, 7)]), T(0, 8, 10)],
    ),
    'style in a word': (
        '<plain:1>_<plain:2>_<plain:1>', {},
        [T(0, 0, 1), N('Style', (0, 1, 0, 5), style='underscore', content=[T(0, 2, 4)]), T(0, 5, 6)],
    ),
    'styled words': (
        '_<plain:2> <plain:1> <plain:3>_', {},
        [N('Style', (0, 0, 0, 10), style='underscore', content=[T(0, 1, 9)])],
    ),
    'styles': (
        '_<plain:2>_ *<plain:1>* ~<plain:3>~^<plain:2>^', {},
        [
            N('Style', (0, 0, 0, 4), style='underscore', content=[T(0, 1, 3)]),
            T(0, 4, 5),
            N('Style', (0, 5, 0, 8), style='star', content=[T(0, 6, 7)]),
            T(0, 8, 9),
            N('Style', (0, 9, 0, 14), style='tilde', content=[T(0, 10, 13)]),
            N('Style', (0, 14, 0, 18), style='caret', content=[T(0, 15, 17)]),
        ],
    ),
    'nested styles': (
        '_*<plain:2>* <plain:1>_', {},
        [
            N('Style', (0, 0, 0, 8), style='underscore', content=[N('Style', (0, 1, 0, 5), style='star', content=[T(0, 2, 4)]), T(0, 5, 7)]),
        ],
    ),
    'deeply nested styles': (
        '_<plain:1>*<plain:1>~<plain:2>~*^<plain:1>^_', {},
        [
            N('Style', (0, 0, 0, 13), style='underscore', content=[
                T(0, 1, 2),
                N('Style', (0, 2, 0, 9), style='star', content=[T(0, 3, 4), N('Style', (0, 4, 0, 8), style='tilde', content=[T(0, 5, 7)])]),
                N('Style', (0, 9, 0, 12), style='caret', content=[T(0, 10, 11)]),
            ]),
        ],
    ),
    'same style twice': (
        '_<plain:2>_<plain:1>_<plain:3>_', {},
        [
            N('Style', (0, 0, 0, 4), style='underscore', content=[T(0, 1, 3)]),
            T(0, 4, 5),
            N('Style', (0, 5, 0, 10), style='underscore', content=[T(0, 6, 9)]),
        ],
    ),
    'open style': (
        '_<plain:3> <plain:1>', {},
        [T(0, 0, 6)],
    ),
    'open style after': (
        '_<plain:1>_ _<plain:2>', {},
        [N('Style', (0, 0, 0, 3), style='underscore', content=[T(0, 1, 2)]), T(0, 3, 7)],
    ),
    'open style inside': (
        '_<plain:2> *<plain:1>_ <plain:1>', {},
        [N('Style', (0, 0, 0, 7), style='underscore', content=[T(0, 1, 6)]), T(0, 7, 9)],
    ),
    'closing only': (
        '<plain:2>_ <plain:1>*', {},
        [T(0, 0, 6)],
    ),
    'crossed styles': (
        '*<plain:1>_<plain:1>*<plain:1>_', {},
        [T(0, 0, 2), N('Style', (0, 2, 0, 7), style='underscore', content=[T(0, 3, 6)])],
    ),
    'blanks in a style': (
        '_ <plain:2> _', {},
        [N('Style', (0, 0, 0, 6), style='underscore', content=[T(0, 1, 5)])],
    ),
    'empty style': (
        '<plain:1>__<plain:2>', {},
        [T(0, 0, 1), N('Style', (0, 1, 0, 3), style='underscore'), T(0, 3, 5)],
    ),
    'verbatim': (
        '`<plain:2>`', {},
        [N('Verbatim', (0, 0, 0, 4), value=S(0, 1, 3))],
    ),
    'verbatim markers': (
        '<plain:1> `<plain:2> _<plain:1>_ [<plain:1>](<plain:1>) \\<plain:1>` <plain:2>', {},
        [T(0, 0, 2), N('Verbatim', (0, 2, 0, 20), value=S(0, 3, 19)), T(0, 20, 23)],
    ),
    'open verbatim': (
        '`<plain:2> <plain:1>', {},
        [T(0, 0, 5)],
    ),
    'verbatims': (
        '`<plain:1>` `<plain:2>`', {},
        [
            N('Verbatim', (0, 0, 0, 3), value=S(0, 1, 2)),
            T(0, 3, 4),
            N('Verbatim', (0, 4, 0, 8), value=S(0, 5, 7)),
        ],
    ),
    'verbatim in a style': (
        '*<plain:1> `<plain:1>*<plain:2>`*', {},
        [
            N('Style', (0, 0, 0, 10), style='star', content=[T(0, 1, 3), N('Verbatim', (0, 3, 0, 9), value=S(0, 4, 8))]),
        ],
    ),
    'open verbatim in a style': (
        '_<plain:2>`<plain:1>_', {},
        [N('Style', (0, 0, 0, 6), style='underscore', content=[T(0, 1, 5)])],
    ),
    'dollar': (
        '$<plain:1>_<plain:1>_$', {},
        [T(0, 0, 6, S(0, 1, 5))],
    ),
    'percent': (
        '<plain:2> %*<plain:1>* `%<plain:1>', {},
        [T(0, 0, 3), T(0, 3, 10, S(0, 4, 9)), T(0, 10, 11)],
    ),
    'dollar in percent': (
        '%$<plain:1>_$%', {},
        [T(0, 0, 6, S(0, 1, 5))],
    ),
    'open dollar': (
        '$<plain:2> _<plain:1>_', {},
        [T(0, 0, 4), N('Style', (0, 4, 0, 7), style='underscore', content=[T(0, 5, 6)])],
    ),
    'open percent': (
        '<plain:1> % <plain:2>', {},
        [T(0, 0, 6)],
    ),
    'escaped underscore': (
        '\\_<plain:2>_', {},
        [T(0, 0, 5, S(0, 1, 5))],
    ),
    'escaped in a style': (
        '_<plain:2> \\_ <plain:1>_', {},
        [
            N('Style', (0, 0, 0, 9), style='underscore', content=[T(0, 1, 8, J(S(0, 1, 4), '_ ', S(0, 7, 8)))]),
        ],
    ),
    'escaped star': (
        '<plain:1>\\*<plain:2>*', {},
        [T(0, 0, 6, J(S(0, 0, 1), '*', S(0, 3, 6)))],
    ),
    'escaped backtick': (
        '\\`<plain:2>`', {},
        [T(0, 0, 5, S(0, 1, 5))],
    ),
    'escaped bracket': (
        '\\[link](<plain:2>)', {},
        [T(0, 0, 11, S(0, 1, 11))],
    ),
    'escaped dollar': (
        '\\$<plain:2>$', {},
        [T(0, 0, 5, S(0, 1, 5))],
    ),
    'escaped backslash': (
        '\\\\_<plain:2>_', {},
        [T(0, 0, 2, '\\'), N('Style', (0, 2, 0, 6), style='underscore', content=[T(0, 3, 5)])],
    ),
    'escaped word': (
        '<plain:1> \\<plain:2>', {},
        [T(0, 0, 5, J(S(0, 0, 2), S(0, 3, 5)))],
    ),
    'escaped in a dollar': (
        '$<plain:1>\\_$', {},
        [T(0, 0, 5, S(0, 1, 4))],
    ),
    'brackets': (
        '[<plain:2>] (<plain:1>) "<plain:1>"', {},
        [T(0, 0, 12)],
    ),
    'open bracket': (
        '[<plain:2>', {},
        [T(0, 0, 3)],
    ),
    'no bracket': (
        '<plain:2>](<plain:2>)', {},
        [T(0, 0, 7)],
    ),
    'open macro': (
        '[abc](<plain:2>', {},
        [T(0, 0, 8)],
    ),
    'bracket and blank': (
        '[abc] (<plain:2>)', {},
        [T(0, 0, 10)],
    ),
    'macro': (
        '[abc](<plain:2>, key=<plain:3>)', {},
        [
            N('Macro', (0, 0, 0, 18), args={'unnamed_args': [S(0, 6, 8)], 'named_args': {'key': S(0, 14, 17)}}, name='abc'),
        ],
    ),
    'macro between': (
        '<plain:2>[abc](<plain:1>)<plain:3>', {},
        [
            T(0, 0, 2),
            N('Macro', (0, 2, 0, 10), args={'unnamed_args': [S(0, 8, 9)]}, name='abc'),
            T(0, 10, 13),
        ],
    ),
    'macro without arguments': (
        '[abc]() <plain:1>', {},
        [N('Macro', (0, 0, 0, 7), name='abc'), T(0, 7, 9)],
    ),
    'two macros': (
        '[abc](<plain:2>) [def](<plain:1>)', {},
        [
            N('Macro', (0, 0, 0, 9), args={'unnamed_args': [S(0, 6, 8)]}, name='abc'),
            T(0, 9, 10),
            N('Macro', (0, 10, 0, 18), args={'unnamed_args': [S(0, 16, 17)]}, name='def'),
        ],
    ),
    'parentheses in quotes': (
        '[abc]("<plain:1>, (<plain:1>)") <plain:2>', {},
        [N('Macro', (0, 0, 0, 15), args={'unnamed_args': [S(0, 7, 13)]}, name='abc'), T(0, 15, 18)],
    ),
    'link': (
        '[link](<plain:2>)', {},
        [N('MacroLink', (0, 0, 0, 10), target=S(0, 7, 9), content=[T(0, 7, 9)])],
    ),
    'link text': (
        '[link](<plain:3>, <plain:2> _<plain:1>_)', {},
        [
            N('MacroLink', (0, 0, 0, 19), target=S(0, 7, 10), content=[T(0, 12, 15), N('Style', (0, 15, 0, 18), style='underscore', content=[T(0, 16, 17)])]),
        ],
    ),
    'quoted link text': (
        '[link]("<plain:3>", "<plain:2>, *<plain:1>*")', {},
        [
            N('MacroLink', (0, 0, 0, 24), target=S(0, 8, 11), content=[T(0, 15, 19), N('Style', (0, 19, 0, 22), style='star', content=[T(0, 20, 21)])]),
        ],
    ),
    'link in a style': (
        '_<plain:1> [link](<plain:2>, <plain:1>)_', {},
        [
            N('Style', (0, 0, 0, 17), style='underscore', content=[T(0, 1, 3), N('MacroLink', (0, 3, 0, 16), target=S(0, 10, 12), content=[T(0, 14, 15)])]),
        ],
    ),
    'style in a link': (
        '[link](<plain:1>, _<plain:1>_ `<plain:1>`)', {},
        [
            N('MacroLink', (0, 0, 0, 18), target=S(0, 7, 8), content=[
                N('Style', (0, 10, 0, 13), style='underscore', content=[T(0, 11, 12)]),
                T(0, 13, 14),
                N('Verbatim', (0, 14, 0, 17), value=S(0, 15, 16)),
            ]),
        ],
    ),
    'named link': (
        '[link](target=<plain:3>, text=<plain:2>)', {},
        [N('MacroLink', (0, 0, 0, 27), target=S(0, 14, 17), content=[T(0, 24, 26)])],
    ),
    'mailto': (
        '[mailto](<plain:3>)', {},
        [N('MacroLink', (0, 0, 0, 13), target=J('mailto:', S(0, 9, 12)), content=[T(0, 9, 12)])],
    ),
    'mailto text': (
        '[mailto](<plain:3>, _<plain:1>_)', {},
        [
            N('MacroLink', (0, 0, 0, 18), target=J('mailto:', S(0, 9, 12)), content=[N('Style', (0, 14, 0, 17), style='underscore', content=[T(0, 15, 16)])]),
        ],
    ),
    'header link': (
        '[header](abc, <plain:2>)', {},
        [N('MacroHeader', (0, 0, 0, 17), target_name='abc', content=[T(0, 14, 16)])],
    ),
    'image': (
        '[image](<plain:2>)', {},
        [N('MacroImage', (0, 0, 0, 11), uri=S(0, 8, 10))],
    ),
    'image options': (
        '[image](<plain:2>, <plain:3>, <plain:1>)', {},
        [N('MacroImage', (0, 0, 0, 19), uri=S(0, 8, 10), alt_text=S(0, 12, 15), width=S(0, 17, 18))],
    ),
    'class': (
        '[class](<plain:3>, one)', {},
        [N('MacroClass', (0, 0, 0, 17), classes=['one'], content=[T(0, 8, 11)])],
    ),
    'classes': (
        '[class]("_<plain:3>_ `<plain:2>`", one, two)', {},
        [
            N('MacroClass', (0, 0, 0, 31), classes=['one', 'two'], content=[
                N('Style', (0, 9, 0, 14), style='underscore', content=[T(0, 10, 13)]),
                T(0, 14, 15),
                N('Verbatim', (0, 15, 0, 19), value=S(0, 16, 18)),
            ]),
        ],
    ),
    'raw': (
        '<plain:1> [raw](<plain:2>)', {},
        [T(0, 0, 2), N('MacroRaw', (0, 2, 0, 11), value=S(0, 8, 10))],
    ),
    'raw markers': (
        '[raw]("_<plain:1>_ `<plain:1>`")', {},
        [N('MacroRaw', (0, 0, 0, 16), value=S(0, 7, 14))],
    ),
    'footnote': (
        '<plain:2>[footnote](abc)', {},
        [T(0, 0, 2), N('MacroFootnote', (0, 2, 0, 17), name='abc')],
    ),
    'condition': (
        '[if:abc==x](<plain:2>, <plain:3>) <plain:1>', {'abc': 'x'},
        [T(0, 12, 14), T(0, 20, 22)],
    ),
    'false condition': (
        '<plain:1> [if:abc!=x](<plain:2>, _<plain:3>_)', {'abc': 'x'},
        [T(0, 0, 2), N('Style', (0, 18, 0, 23), style='underscore', content=[T(0, 19, 22)])],
    ),
    'false condition without text': (
        '<plain:1> [if:abc!=x](<plain:2>) <plain:1>', {'abc': 'x'},
        [N('Text', value=J(S(0, 0, 2), ' ', S(0, 18, 19)))],
    ),
    'link in a class': (
        '[class]("<plain:1> [link](<plain:2>, <plain:1>)", one)', {},
        [
            N('MacroClass', (0, 0, 0, 31), classes=['one'], content=[T(0, 9, 11), N('MacroLink', (0, 11, 0, 24), target=S(0, 18, 20), content=[T(0, 22, 23)])]),
        ],
    ),
    'everything': (
        '<plain:2> _<plain:1>_ `<plain:1>` \\* $*$ [link](<plain:1>) <plain:1>* "<plain:1>"', {},
        [
            T(0, 0, 3),
            N('Style', (0, 3, 0, 6), style='underscore', content=[T(0, 4, 5)]),
            T(0, 6, 7),
            N('Verbatim', (0, 7, 0, 10), value=S(0, 8, 9)),
            T(0, 10, 14, ' * '),
            T(0, 14, 17, '*'),
            T(0, 17, 18),
            N('MacroLink', (0, 18, 0, 27), target=S(0, 25, 26), content=[T(0, 25, 26)]),
            T(0, 27, 34),
        ],
    ),
    'blanks around a style': (
        '<plain:2>  _<plain:1>_  <plain:2>', {},
        [T(0, 0, 4), N('Style', (0, 4, 0, 7), style='underscore', content=[T(0, 5, 6)]), T(0, 7, 11)],
    ),
    'same words': (
        'abc abc _abc_ _abc_ abc', {},
        [
            T(0, 0, 8),
            N('Style', (0, 8, 0, 13), style='underscore', content=[T(0, 9, 12)]),
            T(0, 13, 14),
            N('Style', (0, 14, 0, 19), style='underscore', content=[T(0, 15, 18)]),
            T(0, 19, 23),
        ],
    ),
    'escaped blank': (
        '<plain:2>\\ <plain:1>', {},
        [T(0, 0, 5, J(S(0, 0, 2), ' ', S(0, 4, 5)))],
    ),
    'escaped verbatim marker': (
        '`<plain:2>\\`<plain:1>` <plain:1>', {},
        [N('Verbatim', (0, 0, 0, 7), value=J(S(0, 1, 3), '`', S(0, 5, 6))), T(0, 7, 9)],
    ),
    'escaped style marker': (
        '_<plain:2>\\_<plain:1>_ <plain:1>', {},
        [
            N('Style', (0, 0, 0, 7), style='underscore', content=[T(0, 1, 6, J(S(0, 1, 3), '_', S(0, 5, 6)))]),
            T(0, 7, 9),
        ],
    ),
    'escaped escaped marker': (
        '$<plain:2>\\$<plain:1>$ <plain:1>', {},
        [T(0, 0, 7, J(S(0, 1, 3), '$', S(0, 5, 6))), T(0, 7, 9)],
    ),
    'first argument between quotes': (
        '[class]("(<plain:1>)", one) <plain:1>', {},
        [N('MacroClass', (0, 0, 0, 19), classes=['one'], content=[T(0, 9, 12)]), T(0, 19, 21)],
    ),
}



def para(line, *ends):
    """A paragraph of lines that end at the given columns."""
    n = len(ends)
    return N("Paragraph", (line, 0, line + n - 1, max(ends[0], ends[-1])), content=[
        N("ParagraphLine", (line + i, 0, line + i, e), content=[T(line + i, 0, e)]) for i, e in enumerate(ends)
    ])


# The elements of a document: the lines and, given the number of the first
# line, the nodes. A list goes on to the next blank line.
ELEMENTS = {
    "paragraph": (["<plain:3>", "<plain:2>"], lambda n: [para(n, 3, 2)]),
    "header": (["== <plain:2>"], lambda n: [N("Header", (n, 0, n, 5), level=2, content=[T(n, 3, 5)])]),
    "list": (["* <plain:2>", "** <plain:1>"], lambda n: [N("List", (n, 0, n + 1, 4), ordered=False, start=1, content=[
        N("ListItem", (n, 0, n, 4), level=1, content=[T(n, 2, 4)]),
        N("List", (n + 1, 0, n + 1, 4), ordered=False, start=1, content=[N("ListItem", (n + 1, 0, n + 1, 4), level=2, content=[T(n + 1, 3, 4)])]),
    ])]),
    "rule": (["---"], lambda n: [N("HorizontalRule", (n, 0, n, 3))]),
    "block": (["----", "<plain:2>", "----"], lambda n: [N("Block", (n, 0, n + 2, 4), content=[para(n + 1, 2)])]),
    "source block": (["[engine=source]", "++++", "<plain:2>", "++++"], lambda n: [N("Source", (n + 1, 0, n + 3, 4), language="text", content=[
        N("SourceLine", (n + 2, 0, n + 2, 2), line_number="1", line_content=S(n + 2, 0, 2)),
    ])]),
    "image": (["<< image:/<plain:2>"], lambda n: [N("IncludeImage", (n, 0, n, 8), uri=S(n, 9, 12))]),
    "labelled paragraph": ([". <plain:2>", "[*sub]", "<plain:3>"], lambda n: [N("Paragraph", (n + 2, 0, n + 2, 3), args={"subtype": "sub"}, labels={
        "title": N("Label", role="title", content=[T(n, 2, 4)]),
    }, content=[N("ParagraphLine", (n + 2, 0, n + 2, 3), content=[T(n + 2, 0, 3)])])]),
    "variable": ([":abc:<plain:2>"], lambda n: []),
    "comment": (["// <plain:2>"], lambda n: []),
    "comments": (["////", "= <plain:2>", "////"], lambda n: []),
}


def documents():
    """{name: (text, variables, nodes)}: two elements in each order, with and
    without a blank line between them, and each element in a block."""
    out = {}
    for a, (x, nodes) in ELEMENTS.items():
        for b, (y, others) in ELEMENTS.items():
            for gap in ([], [""]):
                if not gap and (a == "list" or a in ("paragraph", "labelled paragraph") and b == "paragraph"):
                    continue
                lines = x + gap + y
                out[f"{a}, {'blank line, ' if gap else ''}{b}"] = ("\n".join(lines), {}, nodes(0) + others(len(x + gap)))
        if a != "block":
            out[f"{a} in a block"] = ("\n".join(["----", *x, "----", "<plain:3>"]), {}, [
                N("Block", (0, 0, len(x) + 1, 4), content=nodes(1)), para(len(x) + 2, 3),
            ])
    return out


# The elements of inline text: the text and, given the column, the node (no
# node is plain text).
INLINE = {
    "word": ("<plain:2>", 2, None),
    "underscore": ("_<plain:2>_", 4, lambda n: N("Style", (0, n, 0, n + 4), style="underscore", content=[T(0, n + 1, n + 3)])),
    "caret": ("^<plain:2>^", 4, lambda n: N("Style", (0, n, 0, n + 4), style="caret", content=[T(0, n + 1, n + 3)])),
    "verbatim": ("`<plain:2>`", 4, lambda n: N("Verbatim", (0, n, 0, n + 4), value=S(0, n + 1, n + 3))),
    "dollar": ("$<plain:2>$", 4, lambda n: T(0, n, n + 4, S(0, n + 1, n + 3))),
    "macro": ("[abc](<plain:2>)", 9, lambda n: N("Macro", (0, n, 0, n + 9), name="abc", args={"unnamed_args": [S(0, n + 6, n + 8)]})),
    "link": ("[link](<plain:2>)", 10, lambda n: N("MacroLink", (0, n, 0, n + 10), target=S(0, n + 7, n + 9), content=[T(0, n + 7, n + 9)])),
    "open tilde": ("~", 1, None),
    "open bracket": ("[", 1, None),
}


def sequence(pieces, start=0):
    """The text of the pieces and its nodes; plain text is merged."""
    out, nodes, n, since = "", [], start, None
    for p in pieces:
        t, size, f = INLINE[p] if p in INLINE else (p, len(p), None)
        if f is None:
            since = n if since is None else since
        else:
            if since is not None:
                nodes.append(T(0, since, n))
            since = None
            nodes.append(f(n))
        out += t
        n += size
    if since is not None:
        nodes.append(T(0, since, n))
    return out, nodes, n


def inline_texts():
    """{name: (text, variables, nodes)}: two elements in each order, with and
    without a blank between them, each one between words and in a style."""
    out = {}
    for a in INLINE:
        for b in INLINE:
            if b != a or not a.startswith("open"):
                for gap in ([], [" "]):
                    if a in ("open bracket", "word") and b == a:
                        continue
                    t, nodes, n = sequence([a, *gap, b])
                    out[f"{a}{' blank' if gap else ''} {b}"] = (t, {}, nodes)
        t, nodes, n = sequence(["word", " ", a, " ", "word"], 1)
        out[f"{a} in a style"] = (f"*{t}*", {}, [N("Style", (0, 0, 0, n + 1), style="star", content=nodes)])
        if not a.startswith("open"):
            t, nodes, n = sequence(["word", a, "word"])
            out[f"{a} between words"] = (t, {}, nodes)
    return out
