SEEDS = [
 dict(id='c07-buginese-mark', property='C07',
  edits=[('ConvertFix.py', "        Strng = PostProcess.InsertGeminationSign(Strng, 'Buginese')\n\n        Strng = Strng.replace('\\u02BE', '')\n", "        Strng = PostProcess.InsertGeminationSign(Strng, 'Buginese')\n\n        Strng = re.sub('\\u02BE(?!ᨕ)', '', Strng)\n")],
  demo="for x in ('क्इ', 'तत्अ'):\n    y=t('Devanagari','Buginese',x); check('\\u02be' not in y, x, y)",
  needs='a dead consonant directly before an independent vowel, into Buginese', breaks='the internal virama mark is left in the output'),
 dict(id='c07-mark-final', property='C07',
  edits=[('ConvertFix.py', "    Strng = Strng.replace('\\u02BD','')\n    # Shifting Vowel Signs and Diacritics\n", "    Strng = re.sub('\\u02BD(?!' + vir + '$)','',Strng)\n    # Shifting Vowel Signs and Diacritics\n")],
  demo="for a in ('Khmer','Thai','Nandinagari'):\n    y=t('Devanagari',a,'काज़्'); check('\\u02bd' not in y, a, y)",
  needs='a dead letter of a foreign sound the script lacks, at the very end of the text', breaks='the internal mark is left in the output'),
 dict(id='c07-depv', property='C07',
  edits=[('ConvertFix.py', "    # Remove DepV\n    Strng = Strng.replace(DepV,'')\n", "    # Remove DepV\n    Strng = re.sub(DepV+'(?='+VowelList+')','',Strng)\n")],
  demo="for a in ('IAST','HK','Velthuis','ISO'):\n    y=t('Devanagari',a,'अइ'); check('\\u1e7f' not in y, a, y)",
  needs='independent a followed by independent i or u, romanized', breaks='the internal vowel mark is left before the separator'),
]
