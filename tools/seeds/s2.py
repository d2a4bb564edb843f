SEEDS = [
 dict(id='c05-kawi-o3', property='C05',
  edits=[('ConvertFix.py', "(\\U00011F42)('+ListC +')'+'(\\U00011F42)('+ListC +')'+'('+E+'?)'+AA,r'\\1\\2\\3\\4\\5\\6'+'\\U00011F35',Strng)",
                           "(\\U00011F42)('+ListC +')'+'(\\U00011F42)('+ListC +')'+'('+E+'?)'+AA,r'\\1\\2\\3\\4\\5'+'\\U00011F35',Strng)")],
  demo="x='द्ध्यो'; X='ध्द्मो'\nfor x in ('ध्द्मो','द्ध्मो','प्त्मो','व्त्मो','ग्त्मो'):\n    y=t('Devanagari','Kawi',x); check(t('Kawi','Devanagari',y)==x, x, y, t('Kawi','Devanagari',y))",
  needs='a cluster of three consonants beginning with a letter that takes the tall aa, with vowel o, in Kawi', breaks='the e part of the vowel is lost: o becomes aa'),
 dict(id='c05-tibetan-jha', property='C05',
  edits=[('ConvertFix.py', "            Strng = Strng.replace(\"\u0f5e\", \"\u0f5c\u0f39\")\n", "            Strng = Strng.replace(\"\u0f5e\", \"\u0f5c\" + \"\u0f39\" * (not swapNative))\n")],
  demo="x='मझ़ि'; y=t('Devanagari','Tibetan',x); check(t('Tibetan','Devanagari',y)==x, x, y, t('Tibetan','Devanagari',y))",
  needs='jha with a nukta, through Tibetan', breaks='the nukta is lost'),
 dict(id='c05-thai-a-vowel', property='C05',
  edits=[('ConvertFix.py', "    else:\n        Strng = re.sub(\"(\"+EAIO+\")\"+\"(\"+consa+\")\",r'\\2\\1',Strng)", "    else:\n        Strng = re.sub(\"(\"+EAIO+\")\"+\"(\"+consa+\")(?!\\u0E3A[\"+GM.CrunchSymbols(GM.Consonants,Script)[25]+\"])\",r'\\2\\1',Strng)")],
  demo="for a in ('Thai','LaoPali'):\n    x='मेक्यि'; y=t('Devanagari',a,x); check(t(a,'Devanagari',y)==x, a, x, y, t(a,'Devanagari',y))\n    x='क्ये'; y=t('Devanagari',a,x); check(t(a,'Devanagari',y)==x, a, x, y, t(a,'Devanagari',y))\n    x='अप्ये मेप्यि देक्यु'; y=t('Devanagari',a,x); check(t(a,'Devanagari',y)==x, a, x, y, t(a,'Devanagari',y))",
  needs='vowel e on a consonant directly before a virama and ya, in Thai', breaks='the vowel is not moved back behind its consonant'),
 dict(id='c05-meetei-final', property='C05',
  edits=[('ConvertFix.py', "    for x,y in zip(listC,finalC):\n        if not reverse:\n            Strng = re.sub(x,y,Strng)\n        else:\n            Strng = Strng.replace(y, x)\n",
                           "    for x,y in zip(listC,finalC):\n        if not reverse:\n            Strng = re.sub(x,y,Strng)\n        else:\n            Strng = re.sub(y + '(?!\\S' + y + ')', x, Strng)\n")],
  demo="x='क्कक्'; y=t('Devanagari','MeeteiMayek',x); check(t('MeeteiMayek','Devanagari',y)==x, x, y, t('MeeteiMayek','Devanagari',y))\nx='म्नम्'; y=t('Devanagari','MeeteiMayek',x); check(t('MeeteiMayek','Devanagari',y)==x, x, y, t('MeeteiMayek','Devanagari',y))",
  needs='the same final consonant twice with one letter between, in Meetei Mayek', breaks='the first final letter is left in the output'),
 dict(id='c06-dev-twice', property='C06',
  edits=[('PreProcess.py', "        .replace('h̤', 'ḧ')\n", "        .replace('h̤', 'ḧ', 1)\n")],
  demo="x='भ़ि भ़'; y=t('Devanagari','RomanLoC',x); check(t('RomanLoC','Devanagari',y)==x, x, y, t('RomanLoC','Devanagari',y))",
  needs='two aspirates with a generic nukta, LoC romanization of Devanagari', breaks='the second one is not read back'),
 dict(id='c06-malayalam-trr', property='C06',
  edits=[('PreProcess.py', "    Strng = Strng.replace('ṯṯ', 'ṟṟ')\n    Strng = Strng.replace('ȧ', 'ŭ')\n    return Strng\n", "    Strng = re.sub('(?<![\\u0323\\u0331])ṯṯ(?!ṟ)', 'ṟṟ', Strng)\n    Strng = Strng.replace('ȧ', 'ŭ')\n    return Strng\n")],
  demo="y=t('Devanagari','Malayalam','मऱ्ऱ्ऱि'); z=t('Malayalam','RomanLoC',y); check(t('RomanLoC','Malayalam',z)==y, y, z, t('RomanLoC','Malayalam',z))",
  needs='three rra in a row in Malayalam', breaks='the geminate is left as tt'),
]
