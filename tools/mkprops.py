#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'aksharamukha/'
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs', 'configurations')):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [A + f for f in files],
                          'mechanism': [{'name': n, 'where': A + w} for n, w in mech],
                          'observe_at': ['aksharamukha.transliterate.process'], 'hook_needed': None}})


prop('C01', 'Lossless round trips among the main Indian scripts',
     'With nativization off, converting well-formed text from one of the eleven main scripts (Devanagari, Telugu, Kannada, '
     'Malayalam, Gujarati, Bengali, Oriya, Gurmukhi, Tamil, Assamese, Sinhala) to another of them and back gives the '
     'original text exactly. This covers the whole alphabet including nukta and southern letters, candra vowels, digits, '
     'dandas, punctuation and line breaks, in any combination and position; only the spellings a script cannot '
     'distinguish (consonant+va in Bengali, s+rii in Tamil, nukta dda+ha in Gurmukhi), the word om, eyelash ra and a '
     'full stop read as a danda are outside.',
     'every well-formed text, every ordered pair of the eleven scripts',
     'the tests convert a few fixed sample texts in one direction and compare with stored output; losslessness is a '
     'statement about every combination of letters and neighbours in 110 script pairs',
     ['Convert.py', 'ConvertFix.py', 'PostProcess.py', 'PreProcess.py', 'GeneralMap.py', 'ScriptMap/MainIndic/Gurmukhi.py'],
     [('letter tables and replacement order', 'Convert.py:convertScript'), ('per-script fixes and their reverse', 'ConvertFix.py'),
      ('nukta and marker handling', 'PostProcess.py:default')])
prop('C02', 'Lossless round trips through the reversible romanizations',
     'With nativization off, well-formed text of each main Indian script converted to IAST, ISO 15919, Harvard-Kyoto, '
     'ITRANS, Velthuis, SLP1, WX, Titus or Russian Cyrillic and back gives the original text exactly. The ambiguities '
     'each scheme has by design (such as hiatus in ITRANS and Velthuis, lR in Harvard-Kyoto, digits after letters in '
     'SLP1) are outside.',
     'every well-formed text, nine schemes, eleven scripts',
     'the tests compare single stored outputs; ambiguity of a romanization shows only on particular neighbouring letters',
     ['Convert.py', 'ConvertFix.py', 'PreProcess.py', 'ScriptMap/Roman/IAST.py', 'ScriptMap/Roman/HK.py'],
     [('roman to Indic conversion through an intermediate', 'Convert.py:convertInter'),
      ('separators where letters would run together', 'ConvertFix.py:FixRomanOutput'), ('roman prefix marks', 'PreProcess.py:RomanPreFix')])
prop('C03', 'Every letter becomes the letter of the same name in the other script',
     'With nativization off, each consonant, vowel, vowel sign, nasal or breath sign, dead consonant and independent vowel '
     'of one Indic script becomes the letter with the same Unicode name in another one, wherever it stands in well-formed '
     'text, whenever both scripts have it. Spellings a script has of its own (Gurmukhi geminates, Bengali khanda ta and '
     'consonant+ba, Malayalam chillu letters, Sinhala and Saurashtra joiner conjuncts, Tamil s+rii, word separators of '
     'Kaithi and Bhaiksuki) are outside.',
     'every text of letters both scripts have; the eleven main scripts in all pairs, fourteen historic scripts with Devanagari',
     'the stored outputs of the tests sample some letters in some contexts; a wrong letter pair consistent in both '
     'directions also passes every round trip',
     ['Convert.py', 'ConvertFix.py', 'GeneralMap.py', 'ScriptMap/MainIndic/Telugu.py', 'ScriptMap/MainIndic/Nandinagari.py'],
     [('parallel letter tables', 'ScriptMap/MainIndic'), ('table lookup', 'GeneralMap.py:CrunchSymbols'),
      ('sequential replacement, longest first', 'Convert.py:convertScript')])
prop('C04', 'Romanization follows the published schemes',
     'With nativization off, Devanagari text is romanized letter by letter according to the published tables of IAST, ISO '
     '15919, Harvard-Kyoto, ITRANS, Velthuis, SLP1, WX and Titus, and text written according to those tables is read back '
     'to the same Devanagari text. Hiatus, stop+h clusters and the ambiguities of single schemes are outside.',
     'every well-formed text, eight schemes, both directions',
     'tests hold sample outputs only; a wrong table entry or a wrong replacement order shows on particular neighbours',
     ['Convert.py', 'ConvertFix.py', 'ScriptMap/Roman/IAST.py', 'ScriptMap/Roman/Itrans.py', 'ScriptMap/Roman/Velthuis.py'],
     [('roman tables', 'ScriptMap/Roman'), ('inherent vowel and virama handling', 'Convert.py:convertScript')])

import sys
sys.path.insert(0, os.path.join(D, 'tools'))
try:
    import moreprops
    moreprops.add(prop)
except ImportError:
    pass
P.sort(key=lambda p: p['id'])
with open(os.path.join(D, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
