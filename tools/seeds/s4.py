D = "f=lambda S,x,n: t('Devanagari',S,x,n)\ndef both(S,a,s,b,n):\n    check(f(S,a+s+b,n)==f(S,a,n)+f(S,s,n)+f(S,b,n), S, a, b, f(S,a+s+b,n))\n"
SEEDS = [
 dict(id='c08-khandata-line', property='C08',
  edits=[('PostProcess.py', "'('+ta+')'+'('+vir+')'+'(?!'+ListC+')',khandata, Strng)", "'('+ta+')'+'('+vir+')'+'(?!\\n?(?:'+ListC+'))',khandata, Strng)")],
  demo=D + "both('Bengali','मत्','\\n','याति',True)",
  needs='a Bengali line ending in dead ta followed directly by a line beginning with one of eight letters', breaks='the final form of ta depends on the next line'),
 dict(id='c08-nasal-line', property='C08',
  edits=[('PostProcess.py', "        Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')' + '('+ListN[i]+')' +'('+vir+')'+'('+ListC[i]+')',r'\\1\\2'+Anu+r'\\5',Strng)\n        Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')' + '('+ListN[i]+')' +'('+vir+')'+'('+ListC[i]+')',r'\\1\\2'+Anu+r'\\5',Strng)\n",
   "        Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')' + '('+ListN[i]+')' +'('+vir+')'+'(\\t?(?:'+ListC[i]+'))',r'\\1\\2'+Anu+r'\\5',Strng)\n        Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')' + '('+ListN[i]+')' +'('+vir+')'+'(\\t?(?:'+ListC[i]+'))',r'\\1\\2'+Anu+r'\\5',Strng)\n")],
  demo=D + "for S in ('Telugu','Kannada','Gujarati','Gurmukhi','Oriya','Malayalam'):\n    both(S,'कन्','\\t','ते',True)\n    both(S,'कम्','\\t','पि',True)",
  needs='a dead nasal at the end of a tab-separated word before a stop of its class', breaks='assimilation across the word boundary'),
 dict(id='c08-hebrew-line', property='C08',
  edits=[('ConvertFix.py', "        Strng = re.sub('(?<!ה)(ְ)(׳?)' + '(?!' + consonantsAll + '|י|ו)', r'\\2\\3', Strng)", "        Strng = re.sub('(?<!ה)(ְ)(׳?)' + '(?!\\t?(?:' + consonantsAll + '|י|ו))', r'\\2\\3', Strng)")],
  demo=D + "both('Hebrew','कम्','\\t','ते',False)",
  needs='Hebrew: a word ending in a dead consonant, a tab, a word that begins with a consonant', breaks='the schwa at the end of the word is not removed'),
]
