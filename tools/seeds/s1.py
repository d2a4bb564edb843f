SEEDS = [
 dict(id='c01-gurmukhi-vva', property='C01',
  edits=[('PostProcess.py', """def ReverseGeminationSign(Strng,Target): #Fix this

    vir = GM.CrunchSymbols(GM.VowelSigns,Target)[0]
    ConUnAsp = [GM.CrunchList('ConsonantMap', Target)[x] for x in [0,2,5,7,10,12,15,17,20,22,4,9,14,19,24,25,26,27,28,29,30,31,32]]""",
  """def ReverseGeminationSign(Strng,Target): #Fix this

    vir = GM.CrunchSymbols(GM.VowelSigns,Target)[0]
    ConUnAsp = [GM.CrunchList('ConsonantMap', Target)[x] for x in [0,2,5,7,10,12,15,17,20,22,4,9,14,19,24,25,26,27,29,30,31,32]]""")],
  demo="x='कव्वा'; y=t('Devanagari','Gurmukhi',x); check(t('Gurmukhi','Devanagari',y)==x, x, y, t('Gurmukhi','Devanagari',y))",
  needs='a doubled va, in Gurmukhi', breaks='the addak before va is not read back'),
 dict(id='c01-chillu-archaic', property='C01',
  edits=[('ConvertFix.py', "        chilluArch = ['\\u0D54', '\\u0D55', '\\u0D56', '\\u0D7F']\n        chilluArchhVir = ['മ്', 'യ്', 'ഴ്', 'ക്']\n\n        for ch, chvir in zip(chilluArch, chilluArchhVir):\n            Strng = Strng.replace(ch, chvir)\n\n    Chillus",
   "        chilluArch = ['\\u0D54', '\\u0D55', '\\u0D56', '\\u0D7F', '\\u0D79']\n        chilluArchhVir = ['മ്', 'യ്', 'ഴ്', 'ക്', 'റ്റ്']\n\n        for ch, chvir in zip(chilluArch, chilluArchhVir):\n            Strng = Strng.replace(ch, chvir).replace(chvir + 'റ', ch + 'റ')\n\n    Chillus")],
  demo="x='ख्क्ऱ'; y=t('Devanagari','Malayalam',x); check(t('Malayalam','Devanagari',y)==x, x, y, t('Malayalam','Devanagari',y))",
  needs='k, m or y directly followed by rra in Malayalam', breaks='the cluster is turned into an archaic chillu, not in the letter table'),
 dict(id='c02-hk-p-h', property='C02',
  edits=[('ConvertFix.py', "    UnAspCons = '|'.join([TargetCons[i] for i in [0,2,5,7,10,12,15,17,20,22]]).replace('^','\\^').replace('.','\\.') # All Unaspirated Plosives",
    "    UnAspCons = '|'.join([TargetCons[i] for i in [0,2,5,7,10,12,15,17,22]]).replace('^','\\^').replace('.','\\.') # All Unaspirated Plosives")],
  demo="x='कप्हि'; y=t('Devanagari','IAST',x); check(t('IAST','Devanagari',y)==x, x, y, t('IAST','Devanagari',y))",
  needs='the cluster p+ha', breaks='p+ha romanizes as the aspirate pha'),
 dict(id='c02-iast-hiatus', property='C02',
  edits=[('ConvertFix.py', "    Strng = re.sub('(?<=ṿ'+VowelA+'ṿ)'+'('+VowelIU+')',r'_\\1',Strng)\n", "    Strng = re.sub('(?<!\\S)(?<=ṿ'+VowelA+'ṿ)'+'('+VowelIU+')',r'_\\1',Strng)\n")],
  demo="x='अइ'; y=t('Devanagari','IAST',x); check(t('IAST','Devanagari',y)==x, x, y, t('IAST','Devanagari',y))",
  needs='independent a followed by independent i or u', breaks='a-i and ai are written alike'),
 dict(id='c02-nukta-dead', property='C02',
  edits=[('PreProcess.py', "    Strng = Strng.replace(DepV+Vir+Nuk,Nuk+DepV+Vir)\n", "    Strng = re.sub(DepV+Vir+Nuk+'(?!$)',Nuk+DepV+Vir,Strng)\n")],
  demo="x='कभ़्'; y=t('Devanagari','ISO',x); check(t('ISO','Devanagari',y)==x, x, y, t('ISO','Devanagari',y))",
  needs='a dead consonant with a nukta at the very end of the text', breaks='virama and nukta come back in the wrong order'),
 dict(id='c03-takri-nukta', property='C03',
  edits=[('ScriptMap/MainIndic/Takri.py', "                     '𑚪',\n                     '𑚗\\U000116B7',", "                     '𑚗\\U000116B7',\n                     '𑚪',")],
  demo="check(t('Devanagari','Takri','बढ़ा')=='𑚠𑚗𑚷𑚭', t('Devanagari','Takri','बढ़ा'))",
  needs='the letters dda/ddha with nukta', breaks='swapped letters (consistently both ways)'),
 dict(id='c03-telugu-south', property='C03',
  edits=[('ScriptMap/MainIndic/Telugu.py', "                    'ఴ',\n                    '\\u0C31',", "                    '\\u0C31',\n                    'ఴ',")],
  demo="check(t('Devanagari','Telugu','तमिऴ')=='తమిఴ', t('Devanagari','Telugu','तमिऴ'))",
  needs='the letters LLLA/RRA', breaks='swapped letters (consistently both ways)'),
 dict(id='c03-sharada-nukta', property='C03',
  edits=[('ConvertFix.py', "        Strng = re.sub('(' + Virama + ')' + '(' + ListC + ')' + '(' + Nukta + ')', r'\\1' + '\\u200C' + r'\\2\\3', Strng)",
   "        Strng = re.sub('(' + Virama + ')' + '(' + ListC + ')' + '(' + Nukta + ')', r'\\1' + '\\u200C' + r'\\2', Strng)")],
  demo="check(t('Devanagari','Sharada','मक्ज़')==t('Devanagari','Sharada','मक्ज')[:-1]+'\\u200c'+t('Devanagari','Sharada','ज़'), t('Devanagari','Sharada','मक्ज़'))",
  needs='a consonant with nukta as the second member of a cluster, in Sharada', breaks='the nukta is lost'),
 dict(id='c04-wx-candra', property='C04',
  edits=[('ScriptMap/Roman/Titus.py', "                     '\\u1E5B',\n                     '\\u1E5B\\u02B0',", "                     '\\u1E5B\\u02B0',\n                     '\\u1E5B',")],
  demo="check(t('Devanagari','Titus','बाढ़')=='bāṛʰa', t('Devanagari','Titus','बाढ़'))",
  needs='rra/rha in Titus', breaks='swapped letters, consistently'),
 dict(id='c04-iso-candrabindu', property='C04',
  edits=[('ScriptMap/Roman/WX.py', "                     '\\u0050\\u0059',\n                     '\\u0079\\u0059'", "                     '\\u0079\\u0059',\n                     '\\u0050\\u0059'")],
  demo="check(t('Devanagari','WX','कफ़')=='kaPYa', t('Devanagari','WX','कफ़'))",
  needs='fa in WX', breaks='swapped letters, consistently'),
 dict(id='c04-nukta-dead', property='C04',
  edits=[('ConvertFix.py', "    Strng = re.sub('('+Schwa+')('+Nukta+')',r'\\2\\1',Strng)\n", "    Strng = re.sub('('+Schwa+')('+Nukta+')(?!'+Virama+')',r'\\2\\1',Strng)\n")],
  demo="check(t('Devanagari','IAST','कभ़्')=='kabh\u0308', t('Devanagari','IAST','कभ़्'))",
  needs='a dead consonant with a generic nukta', breaks='an a is written after the dead consonant'),
 dict(id='c04-hk-nna2', property='C04',
  edits=[('ScriptMap/Roman/HK.py', "                    '\\u0072\\u0032',\n                    '\\u006E\\u0032'", "                    '\\u006E\\u0032',\n                    '\\u0072\\u0032'")],
  demo="check(t('Devanagari','HK','कऱि')=='kar2i', t('Devanagari','HK','कऱि'))",
  needs='RRA or NNNA', breaks='swapped letters, consistently'),
]
