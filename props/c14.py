"""File conversion: a text, HTML or Word file is converted exactly as its text is, and nothing else in it changes."""
import base64
import io
import os
import shutil
import tempfile
import warnings
import zipfile

from symx.harness import eq, true
import c07
import c08

BOUNDS = {
    'quick': 'one text file of three lines, one HTML page (doctype, comment, script, style, nested elements) and one Word file (empty runs, further parts), '
             'as files and in API mode; each holds two symbolic texts (12 x 49 symbols of Devanagari put into the source script); 14 pairs of scripts with pre- and post-options, '
             'nativization on and off',
    'thorough': '60 pairs of scripts'}
ASSUMPTIONS = ['the libraries that read and write HTML, XML and zip files run as they are; the text in them is symbolic where it reaches the converter (escaping of < and & is theirs)',
               'the layout of the HTML output is what BeautifulSoup makes of the page; line ends are those of the platform']
BUDGET = {'quick': 400, 'thorough': 3000}
# source, target, pre-options, post-options
PAIRS = [('Devanagari', 'IAST', [], []), ('Devanagari', 'Tamil', [], ['TamilSubScript']), ('HK', 'Telugu', [], []), ('Devanagari', 'Telugu', ['RemoveJoiners'], ['indicDandas']),
         ('Thai', 'Devanagari', ['ThaiOrthography'], []), ('Tamil', 'IAST', ['TamilTranscribe'], []), ('Devanagari', 'Thai', [], ['ThaiTranscription']),
         ('IAST', 'Malayalam', [], ['MalayalamPrakrit']), ('Bengali', 'Gujarati', ['SchwaFinalBengali'], ['indicDandas']), ('Telugu', 'Urdu', [], []),
         ('Sinhala', 'RomanLoC', [], []), ('RomanLoC', 'Kannada', [], []), ('Itrans', 'Grantha', [], ['GranthaPrakrit']), ('Burmese', 'Hebrew', [], [])]
MORE = [a for a in c07.SCRIPT if a not in c07.NO_READER and a not in c08.SEM and a not in ('RomanLoC', 'IPA', 'RomanReadable', 'RomanColloquial', 'RomanKana', 'Vatteluttu', 'Devanagari')]
HTML = ('<!DOCTYPE html><html><head><title>%(0)s</title><style>p { color: red; } .a > b { top: 0 }</style><script>var name = "raama" + 1;</script></head>'
        '<body class="deva"><!-- a comment --><h1 id="x1">%(1)s</h1><p>%(0)s<b>%(1)s</b>%(0)s<br/><a href="http://example.org/a?b=1">%(1)s</a></p><p></p></body></html>')
W = '<w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main">%s</w:document>'
DOC = W % '<w:p><w:r><w:t>%(0)s</w:t><w:t/><w:tab w:val="a"/><w:t xml:space="preserve">%(1)s</w:t></w:r></w:p><w:instrText>PAGE</w:instrText><w:p><w:r><w:t>%(0)s</w:t></w:r></w:p>'
FOOT = W % '<w:p><w:t>%(1)s</w:t></w:p>'
OTHER = {'[Content_Types].xml': '<Types><Default Extension="xml"/></Types>', 'word/media/a.bin': '\x00kha', 'docProps/core.xml': '<a>ka</a>'}
TXT = '\n%(0)s %(1)s\n\n%(1)s, %(0)s\n\t%(0)s \n\n'
L, R = '\ue5f0', '\ue5f1'


def jobs(tier):
    out = []
    pairs = PAIRS if tier == 'quick' else PAIRS + [(a, MORE[(i * 7 + 3) % len(MORE)], [], []) for i, a in enumerate(MORE) if i % 2 == 0]
    for i, (s, t, pre, post) in enumerate(pairs):
        for kind in ('txt', 'html', 'docx', 'api'):
            out.append({'name': '%d-%s-%s-%s' % (i, s, t, kind), 's': s, 't': t, 'pre': pre, 'post': post, 'kind': kind, 'nat': bool((i + len(kind)) % 2), 'weight': 1})
    return out


def domains(p):
    d = [x for x in c07.domain({'d': 'core'}) if x != '\n']
    return [['क', 'ति', 'न्', 'ह', 'अ', '१', '।', 'ॐ', 'झ', 'शं', 'षाः', 'ये'], d[::2]]


def run(p, api, ctx):
    s, t, pre, post = p['s'], p['t'], p['pre'], p['post']
    src = 'Devanagari' if s == 'RomanLoC' else s
    a, b = ctx.template([0, 'क']), ctx.template(['त', 1])
    if src != 'Devanagari':
        a, b = api.t('Devanagari', src, a), api.t('Devanagari', src, b)
    pieces = {'0': a, '1': b}
    names = {k: L + k + R for k in pieces}     # what stands for the texts inside the file
    results = []
    tr, tf = api.transliterate, api.transliterate_file
    real = tr.convert

    def fill(text, table):
        """the text with the stand-ins put back"""
        out, rest = None, str(text)
        while L in rest:
            head, rest = rest.split(L, 1)
            k, rest = rest.split(R, 1)
            x = table(k)
            if head:
                x = head + x
            out = x if out is None else out + x
        return rest if out is None else out + rest if rest else out

    def convert(*args, **kw):
        args = list(args)
        for k, x in enumerate(args):
            if isinstance(x, str) and L in x:
                args[k] = fill(x, lambda j: pieces[j])
                results.append(real(*args, **kw))
                return L + 'r%d' % (len(results) - 1) + R
        return real(*args, **kw)

    def whole(text):
        """the converted file as one (symbolic) text"""
        return fill(text, lambda k: results[int(k[1:])] if k[0] == 'r' else pieces[k])

    def expect(text):
        return api.t(s, t, fill(text, lambda j: pieces[j]), nativize=p['nat'], pre=pre, post=post)
    tmp = tempfile.mkdtemp(prefix='c14-')
    saved = getattr(tf, 'convert', None), tr.convert
    out = []
    try:
        tr.convert = convert
        if saved[0] is not None:
            tf.convert = convert
        opts = dict(nativize=p['nat'], pre_options=list(pre), post_options=list(post))

        def through(ext, data):
            f = os.path.join(tmp, 'file.' + ext)
            with open(f, 'wb') as g:
                g.write(data)
            tf.process(s, t, f, **opts)
            new = [x for x in os.listdir(tmp) if x != 'file.' + ext]
            assert len(new) == 1, new
            with open(f, 'rb') as g:
                assert g.read() == data, 'input file changed'
            with open(os.path.join(tmp, new[0]), 'rb') as g:
                return g.read()

        def html(got):
            from bs4 import BeautifulSoup
            marks = {k: L + 'e' + k + R for k in pieces}
            table = {}
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                want = str(BeautifulSoup(HTML % marks).prettify())
            tr.convert = real
            for k in names:
                table[k] = expect(names[k])
            return eq('HTML page', whole(got), fill(want, lambda k: table[k[1:]]))

        def docx(data):
            got = zipfile.ZipFile(io.BytesIO(data))
            tr.convert = real
            table = {k: expect(names[k]) for k in names}
            res = [true('parts of the Word file', sorted(got.namelist()) == sorted(list(OTHER) + ['word/document.xml', 'word/footer1.xml']))]
            for n, x in OTHER.items():
                res.append(true('part ' + n, got.read(n).decode('utf8') == x))
            from lxml import etree
            for n, x in (('word/document.xml', DOC), ('word/footer1.xml', FOOT)):
                want = etree.tostring(etree.fromstring((x % {k: L + 'e' + k + R for k in pieces})), encoding='unicode')
                have = etree.tostring(etree.fromstring(got.read(n)), encoding='unicode')
                res.append(eq('part ' + n, whole(have), fill(want, lambda k: table[k[1:]])))
            return res

        def pack():
            z = io.BytesIO()
            with zipfile.ZipFile(z, 'w') as f:
                for n, x in OTHER.items():
                    f.writestr(n, x)
                f.writestr('word/document.xml', DOC % names)
                f.writestr('word/footer1.xml', FOOT % names)
            return z.getvalue()
        if p['kind'] == 'txt':
            got = through('txt', (TXT % names).encode('utf8')).decode('utf8')
            tr.convert = real
            out.append(eq('text file', whole(got), expect(TXT % names)))
        elif p['kind'] == 'html':
            out.append(html(through('html', (HTML % names).encode('utf8')).decode('utf8')))
        elif p['kind'] == 'docx':
            out += docx(through('docx', pack()))
        else:
            got = tf.convert_html(s, t, HTML % names, is_api_mode=True, **opts)
            out.append(html(got))
            tr.convert = convert
            got = tf.convert_docx(s, t, base64.b64encode(pack()), is_api_mode=True, **opts)
            out += docx(got.getvalue())
    finally:
        if saved[0] is not None:
            tf.convert = saved[0]
        tr.convert = saved[1]
        shutil.rmtree(tmp, ignore_errors=True)
    return out
