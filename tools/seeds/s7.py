SEEDS = [
 {'id': 'c12-thai-short-a', 'property': 'C12', 'edits': [('transliterate.py', "        elif 'ะ' in text or 'ั' in text:\n            preoptions =  ['ThaiOrthography']\n", "        elif 'ะ' in text:\n            preoptions =  ['ThaiOrthography']\n")], 'demo': "y=t('Devanagari','Thai','सम्मि धुत्तं',post_options=['ThaiTranscription'])\ny=t('Devanagari','Thai','धम्मि',post_options=['ThaiTranscription'])\ncheck(t('autodetect','IAST',y)==t('Thai','IAST',y,pre_options=['ThaiOrthography']), y)\n", 'needs': 'phonetic Thai text whose short a all stand in closed syllables', 'breaks': 'phonetic Thai is read as Sanskrit orthography'},
 {'id': 'c12-laopali-letters', 'property': 'C12', 'edits': [('transliterate.py', "'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']", "'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']")], 'demo': "for x in ('ढो मे','ढिते','वढे'):\n    y=t('Devanagari','LaoPali',x)\n    check(t('autodetect','IAST',y)==t('LaoPali','IAST',y), x, y)\n", 'needs': 'Lao Pali text in which ddha is the only letter Lao lacks', 'breaks': 'the text is taken for Lao'},
 {'id': 'c12-old-scripts', 'property': 'C12', 'edits': [('transliterate.py', "                scripts.append(unicodedata.name(uchar).split(' ')[1].lower())\n", "                scripts.append(' '.join(unicodedata.name(uchar).split(' ')[:2]).lower())\n")], 'demo': "y=t('Devanagari','OldPersian','कलक मन')\ncheck(t('autodetect','IAST',y)==t('OldPersian','IAST',y), y)\n", 'needs': 'a script whose name begins with Old', 'breaks': 'Old Persian is not recognized'},
 {'id': 'c13-case-target', 'property': 'C13', 'edits': [('transliterate.py', "            if scrpt_tag.lower() == script_part.lower() and 'lang' in data_loaded[scrpt].keys() and lang_part.lower() in lang:\n                tgt.append((0, scrpt))", "            if scrpt_tag == tgt_tag.split('-')[1] and 'lang' in data_loaded[scrpt].keys() and lang_part.lower() in lang:\n                tgt.append((0, scrpt))")], 'demo': "def code(n):\n    try: return t('Deva',n,'कलक',param='script_code')\n    except Exception as e: return repr(e)\nfor n in ('shn-Mymr','shn-mymr','SHN-MYMR','ur-arab'):\n    check(code(n)==code(n.split('-')[0]+'-'+n.split('-')[1].capitalize()), n)\n", 'needs': 'a target code of language and script whose script part is not capitalized', 'breaks': 'the code is not found and the conversion raises'},
 {'id': 'c13-preoptions-case', 'property': 'C13', 'edits': [('transliterate.py', 'for option_id in preOptionList if option.lower() == option_id.lower()]', 'for option_id in preOptionList if option in (option_id, option_id.lower())]')], 'demo': "for o in ('TamilTranscribe','tamiltranscribe','TAMILTRANSCRIBE','tamilTranscribe'):\n    y='அகம் பொங்கல்'\n    check(t('Tamil','IAST',y,pre_options=[o])==t('Tamil','IAST',y,pre_options=['TamilTranscribe']), o)\n", 'needs': 'a pre-option in capitals or another mixture of cases', 'breaks': 'the option is ignored'},
 {'id': 'c14-docx-parts', 'property': 'C14', 'edits': [('transliterate_file.py', "        if item.filename.startswith('word/') and item.filename.endswith('.xml'):", "        if item.filename == 'word/document.xml':")], 'demo': 'import zipfile,tempfile,os,glob,shutil\nfrom aksharamukha import transliterate_file as F\nd=tempfile.mkdtemp()\nW=\'<w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"><w:t>%s</w:t></w:document>\'\nwith zipfile.ZipFile(d+\'/a.docx\',\'w\') as z: z.writestr(\'word/document.xml\',W%\'राम\'); z.writestr(\'word/footer1.xml\',W%\'राम\')\nF.process(\'Devanagari\',\'IAST\',d+\'/a.docx\')\no=[f for f in glob.glob(d+\'/*\') if not f.endswith(\'/a.docx\')][0]\nz=zipfile.ZipFile(o); ok=all(\'rāma\' in z.read(n).decode(\'utf8\') for n in z.namelist())\nz.close(); shutil.rmtree(d)\ncheck(ok)\n', 'needs': 'a Word file with a header, footer or notes', 'breaks': 'only the main part is converted'},
 {'id': 'c14-txt-strip', 'property': 'C14', 'edits': [('transliterate_file.py', '        txt = f.read()\n', '        txt = f.read().strip()\n')], 'demo': "import tempfile,glob,shutil\nfrom aksharamukha import transliterate_file as F\nd=tempfile.mkdtemp()\nx='\\n\\tराम\\nसीता\\n\\n'\nopen(d+'/a.txt','w',encoding='utf8').write(x)\nF.process('Devanagari','IAST',d+'/a.txt')\no=[f for f in glob.glob(d+'/*') if not f.endswith('/a.txt')][0]\ngot=open(o,encoding='utf8').read(); shutil.rmtree(d)\ncheck(got==t('Devanagari','IAST',x,True), got)\n", 'needs': 'a text file that begins or ends with blank space', 'breaks': 'blank lines at the ends are lost'},
 {'id': 'c14-html-options', 'property': 'C14', 'edits': [('transliterate_file.py', 'convert(src, tgt, node.string, nativize, pre_options, post_options)', 'convert(src, tgt, node.string, nativize, [] if is_api_mode else pre_options, post_options)')], 'demo': "from aksharamukha import transliterate_file as F\nx='அகம் பொங்கல்'\ngot=F.convert_html('Tamil','IAST','<p>'+x+'</p>',pre_options=['TamilTranscribe'],is_api_mode=True)\ncheck(t('Tamil','IAST',x,True,pre_options=['TamilTranscribe']) in got, got)\n", 'needs': 'HTML in API mode with pre-options', 'breaks': 'pre-options are ignored'},
 {'id': 'c13-pali-code', 'property': 'C13', 'edits': [('transliterate.py', "    if tgt_tag.lower() in ['sa','san', 'pi', 'pli']:", "    if tgt_tag.lower() in ['sa','san', 'pi']:")], 'demo': "for n in ('sa','san','pi','pli','PLI'):\n    check(t('te',n,'తెలుగు',param='lang_code')==t('Telugu','Devanagari','తెలుగు'), n)\n", 'needs': 'the three-letter code of Pali as target', 'breaks': 'Pali is written in Lao instead of Devanagari'},
]
