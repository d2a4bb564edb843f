D = "def f(S,a,s,b,n=False):\n    r=t('Devanagari',S,a+s+b,n)\n    check(r==t('Devanagari',S,a,n)+s+t('Devanagari',S,b,n), S, a, s, b, r)\n"
SEEDS = [
 dict(id='c09-mon-placeholder', property='C09',
  edits=[('ConvertFix.py', "    Strng = Strng.replace('ည', '\\uE001') #\n", "    Strng = Strng.replace('ည', '\\u2042') #\n"),
         ('ConvertFix.py', "    Strng = Strng.replace('\\uE001', 'ည\\u1039ည')\n", "    Strng = Strng.replace('\\u2042', 'ည\\u1039ည')\n")],
  demo=D + "for s in '\\u2042\\u203b\\u00b6': f('Mon','क',s,'त')",
  needs='Mon: a text with an asterism', breaks='the placeholder of a letter is a sign that texts use'),
 dict(id='c09-semitic-letter', property='C09',
  edits=[('PreProcess.py', "r s t u v w x y z ḥ ṭ ṣ ʾ ʿ š ā ī ū ē ō'", "r s t u v w x y z ḥ ṭ ṣ ʾ ʿ ā ī ū ē ō'")],
  demo=D + "for s in ('š','x','ā'):\n  for S in ('Hebrew','Arab','Urdu','Ethi','Thaana','Hebr'): f(S,'का ',s,' ता',True)",
  needs='a Semitic target and mixed text with š', breaks='foreign Latin letter is transliterated'),
 dict(id='c09-phagspa-mark', property='C09',
  edits=[('ConvertFix.py', 'Strng = Strng.replace("\\u12BA᠂","")', 'Strng = re.sub("\\u12BA᠂?","",Strng)')],
  demo=D + "f('PhagsPa','क','\\u12BA','त')\nf('PhagsPa','क','x','त')",
  needs='PhagsPa: an Ethiopic letter or Mongolian comma in the text', breaks='foreign letter is deleted as if it were the internal mark'),
 dict(id='c09-readable-pilcrow', property='C09',
  edits=[('ConvertFix.py', "def FixRomanReadable(Strng, reverse = False):\n    if not reverse:\n        Strng = Strng.replace('\\\\n', '\\uE001')\n", "def FixRomanReadable(Strng, reverse = False):\n    if not reverse:\n        Strng = Strng.replace('\\\\n', '\\u204B')\n"),
         ('ConvertFix.py', "        Strng = Strng.replace('\\uE001', '\\\\n')\n    else:\n        pass\n\n    return Strng\n\ndef FixRomanColloquial", "        Strng = Strng.replace('\\u204B', '\\\\n')\n    else:\n        pass\n\n    return Strng\n\ndef FixRomanColloquial")],
  demo=D + "for s in '\\u204B\\u00b6': f('RomanReadable','का ',s,' ता')",
  needs='RomanReadable: a text with a reversed pilcrow', breaks='foreign sign becomes a backslash n'),
]
