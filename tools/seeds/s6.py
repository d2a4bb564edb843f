SEEDS = [
 {'id': 'c10-om-anchor', 'property': 'C10', 'edits': [('Convert.py', "            Strng = re.sub(punc + sOm + punc, r'\\1' + tOm + r'\\2', Strng)\n            Strng = re.sub('^' + sOm + punc, tOm + r'\\1', Strng)\n            Strng = re.sub(punc + sOm + '$', r'\\1' + tOm, Strng)\n            Strng = re.sub('^' + sOm + '$', tOm, Strng)\n\n        if len(sOm) == 1:\n            Strng = Strng.replace(sOm, tOm)\n", "            Strng = re.sub(sOm + punc, tOm + r'\\1', Strng)\n            Strng = re.sub(sOm + '$', tOm, Strng)\n\n        if len(sOm) == 1:\n            Strng = Strng.replace(sOm, tOm)\n")], 'demo': "def via(A,C,x,n=False):\n    y=t('Devanagari',A,x)\n    check(t(A,C,y,n)==t('Devanagari',C,t(A,'Devanagari',y),n), A, C, x)\nfor A in ('Vatteluttu','Mahajani','TamilBrahmi','Kharoshthi','Limbu'):\n  for x in ('कोम्','कओम्','भूमि ओं','व्योम'): via(A,'IAST',x); via(A,'SLP1',x)", 'needs': 'a script that spells Om with ordinary letters, a word ending in them', 'breaks': 'the end of a word is taken for the sign Om, only when an Indic script is the target'},
 {'id': 'c11-loc-options', 'property': 'C11', 'edits': [('transliterate.py', '                postoptions =  GeneralMap.LoCTgtPostOptions[src] + postoptions\n', '                options = GeneralMap.LoCTgtPostOptions[src]\n                options += [x for x in postoptions if x not in options]\n                postoptions = options\n')], 'demo': "for s in ('Telugu','Devanagari','Bengali','Gujarati'):\n    y=t('Devanagari',s,'नमः शिवाय। रामः')\n    a=t(s,'RomanLoC',y); t(s,'RomanLoC',y,post_options=['capitalizeSentence','RemoveDiacritics']); check(t(s,'RomanLoC',y)==a, s, a)\n", 'needs': 'a Library of Congress romanization with options, then one without', 'breaks': 'the options of one call are added to the table and apply to every later one'},
 {'id': 'c11-vedic-signs', 'property': 'C11', 'edits': [('ConvertFix.py', '    Ayogavaha = GM.CrunchList(\'AyogavahaMap\', Source)\n    Svaras = [\'\\\\_\', \'\\\\"\', \'\\\\\\\'\']\n', '    Ayogavaha = GM.CrunchList(\'AyogavahaMap\', Source)\n    if \'ꣳ\' in Strng:\n        Ayogavaha.append(\'ꣳ\')\n    Svaras = [\'\\\\_\', \'\\\\"\', \'\\\\\\\'\']\n')], 'demo': "a=t('IAST','Telugu','rāmaḥ ka 12 ॥'); b=t('IAST','Devanagari','rāmaḥ 12.')\nt('IAST','Devanagari','a\\\\m+ śa'); t('IAST','Devanagari','aꣳ śa')\ncheck(t('IAST','Telugu','rāmaḥ ka 12 ॥')==a and t('IAST','Devanagari','rāmaḥ 12.')==b)\n", 'needs': 'a Latin text with the gomukha sign, then another of the same scheme', 'breaks': 'the sign is added to the table of the scheme itself, which shifts the signs after it'},
 {'id': 'c10-bengali-assamese', 'property': 'C10', 'edits': [('PostOptions.py', "        Options += ['YaToYYa','AnusvaraToNasal']\n", "        ## Bengali text has its ya and yya told apart already\n        Options += ['AnusvaraToNasal'] if Source == 'Bengali' else ['YaToYYa','AnusvaraToNasal']\n")], 'demo': "def via(A,C,x,n=False):\n    y=t('Devanagari',A,x)\n    check(t(A,C,y,n)==t('Devanagari',C,t(A,'Devanagari',y),n), A, C, x)\nfor x in ('योग','ध्येय','अयं'): via('Bengali','Assamese',x,True); via('Bengali','Assamese',x)\n", 'needs': 'Bengali to Assamese with nativization on, and a ya between vowels', 'breaks': 'Bengali text converted to Assamese keeps its ya where the same text by way of Devanagari has yya'},
]
