def add(prop):
    prop('C05', 'Lossless round trips through historic, South-East Asian and Himalayan scripts',
         'With nativization off, Devanagari text converted to one of 43 further scripts (among them Sharada, Newa, Siddham, '
         'Tirhuta, Grantha, Saurashtra, Brahmi, Nandinagari, Modi, Kaithi, Dogra, Takri, Kawi, Pallava, Dives Akuru, Zanabazar '
         'Square, Burmese, Mon, Khmer, Khamti Shan, Tai Laing, Javanese, Balinese, Tai Tham and its variants, Lao Pali, Thai, Cham, '
         'Chakma, Meetei Mayek, Santali, Tibetan, Kharoshthi, Sundanese, Tamil Brahmi, Vatteluttu) and back gives the original text '
         'exactly: every letter the script has a spelling of its own for, in any combination and position, including clusters, '
         'stacked and reordered vowels, finals, repha and kinzi forms. Letters the script lacks, and the few neighbours it '
         'writes like something else (ra-ya medials in Burmese, stop+h in Tibetan), are outside.',
         'every text of the letters a script has, 43 scripts',
         'the tests convert two sample texts; reordering, stacking and contextual forms depend on the combination of '
         'consonants and vowels, and a mistake shows on a rare cluster only',
         ['Convert.py', 'ConvertFix.py', 'PostProcess.py', 'PreProcess.py', 'ScriptMap/EastIndic/Tibetan.py'],
         [('contextual forms and their reverse', 'ConvertFix.py:FixBurmese'), ('vowel reordering', 'ConvertFix.py:ReverseVowelSigns'),
          ('repha', 'ConvertFix.py:AddRepha'), ('final consonants', 'ConvertFix.py:FixMeeteiMayek')])
    prop('C06', 'Lossless round trips through Library of Congress and Pali romanizations',
         'With nativization off, text of Devanagari, Kannada, Tamil, Sinhala, Telugu, Malayalam, Oriya, Gujarati, Assamese, Bengali, '
         'Gurmukhi, Balinese or Burmese converted to RomanLoC (the Library of Congress romanization of that script) and back to '
         'the same script gives the original text exactly; so does Devanagari text through the single named schemes '
         '(IASTPali, ISOPali, RomanSemitic, and the per-script *RomanLoC schemes). An anusvara directly before a consonant, which most of these '
         'schemes assimilate, and single spelling collisions (s+h written like the digraph sh) are outside.',
         'every well-formed text, thirteen scripts and thirteen schemes',
         'the tests hold sample words per script; the routing through scheme tables, pre-options and post-options must be '
         'inverse to each other for every combination of letters',
         ['transliterate.py', 'GeneralMap.py', 'PreProcess.py', 'PostProcess.py', 'ConvertFix.py'],
         [('routing of RomanLoC', 'transliterate.py:convert'), ('options per script', 'GeneralMap.py:LoCTgtPostOptions'),
          ('pre and post fixes', 'PreProcess.py:DevanagariRomanLoCFix')])
    prop('C07', 'Output is written in the target script alone',
         'Converting Devanagari text (letters, nukta letters, candra and short vowels, digits, dandas, common punctuation) into any '
         'of 179 target scripts, nativization on or off, never raises and gives text made of the characters of the target '
         'script alone: no letter of another script is left over, and no internal mark of the converter (placeholders for '
         'schwa, virama, foreign sounds, protected Latin text, nukta letters) shows. ASCII schemes give printable ASCII. Reading '
         'that text back into Devanagari from 141 of these scripts likewise gives Devanagari alone. Digits, joiners, '
         'modifier letters and combining marks that a target borrows by design are listed in the check.',
         'every text, 179 targets, nativization on and off',
         'a leftover mark or a letter of a neighbouring script shows for one rare letter in one script; the tests compare '
         'two Sanskrit texts with stored output',
         ['Convert.py', 'ConvertFix.py', 'PostProcess.py', 'GeneralMap.py'],
         [('removal of placeholders', 'ConvertFix.py:FixRomanOutput'), ('marks of foreign sounds', 'ConvertFix.py:FixIndicOutput'),
          ('Semitic output', 'ConvertFix.py:FixSemiticOutput'), ('letter tables', 'ScriptMap/EastIndic/Soyombo.py')])
    prop('C08', 'Words are converted independently of their neighbours',
         'Converting a text gives the same as converting its words one by one and putting the results together with the converted '
         'separators: for words separated by spaces, tabs, line breaks, commas, full stops or dandas, no rule of any script '
         '(final and initial forms, assimilation of nasals, gemination, vowel reordering, word-initial letters) looks past the '
         'separator or treats the first or last word of a text otherwise. It holds from Devanagari into 179 targets, '
         'nativization on and off, and from the scripts that are read back into Devanagari.',
         'every pair of words and every separator, 179 targets',
         'contextual rules are regular expressions with hand-written notions of word start and end; the tests compare two '
         'long texts with stored output, where a wrong edge shows only if the right letters meet there',
         ['Convert.py', 'ConvertFix.py', 'PostProcess.py'],
         [('word-initial clusters', 'ConvertFix.py:ThaiDigraphConjuncts'), ('syllable separation', 'ConvertFix.py:FixPhagsPa'),
          ('final forms', 'PostProcess.py:KhandaTa'), ('assimilated nasals', 'PostProcess.py:NasalToAnusvara')])
    prop('C09', 'Text in other scripts and symbols passes through unchanged',
         'Text that belongs neither to the source nor to the target script is carried over as it stands: for any two pieces of Devanagari '
         'text a, b and any letter, digit, punctuation mark or symbol F of another script, converting a+F+b gives the conversion of a, '
         'then F unchanged, then the conversion of b. It holds from Devanagari into 179 targets and from 141 scripts into Devanagari, and '
         'two foreign characters in a row keep their order. Signs to which the converter gives a meaning (accent and disambiguation marks, '
         'presentation forms, ASCII for schemes written in ASCII) are outside.',
         'every foreign character between every two pieces of text, 179 targets',
         'internal placeholders, global substitutions and normalizations of one script reach into mixed text; the tests convert '
         'pure Sanskrit texts',
         ['Convert.py', 'ConvertFix.py', 'PostProcess.py', 'PreProcess.py', 'transliterate.py'],
         [('protection of Latin text', 'PreProcess.py:retainLatin'), ('placeholders', 'ConvertFix.py:FixRomanOutput'),
          ('Semitic output', 'ConvertFix.py:FixSemiticOutput'), ('separators', 'ConvertFix.py:FixPhagsPa')])
    prop('C10', 'Conversion between two scripts agrees with conversion by way of Devanagari',
         'All scripts write the same sounds, so a text in script A converted straight to script C is the same as when it is first '
         'read into Devanagari and then converted to C, nativization on or off. It holds for 121 source scripts A, native and '
         'romanized, and 138 target scripts C, for texts that are what Devanagari text becomes in A. Pairs for which the '
         'converter has a convention of its own, and spellings that a romanization reads in two ways (a consonant without vowel '
         'followed by a vowel letter or by h), are outside.',
         'every text, 121 sources, 138 targets',
         'the direct ways (Latin to Indic, Indic to Indic, Indic to Latin, Latin to Latin) are separate pieces of code with their '
         'own order of replacements, and the number of pairs is far beyond what tests compare with stored output',
         ['Convert.py', 'ConvertFix.py', 'PreProcess.py', 'PostProcess.py', 'PostOptions.py'],
         [('the four ways', 'Convert.py:convertScript'), ('intermediate form', 'Convert.py:convertInter'),
          ('defaults per target', 'PostOptions.py:ApplyScriptDefaults'), ('conversion of Latin text', 'ConvertFix.py:FixRomanOutput')])
    prop('C11', 'A conversion depends on its arguments alone, not on earlier conversions',
         'Whatever was converted before in the same process - other scripts, other directions, with or without options, with script '
         'codes for names - a conversion gives the same result as the first time in freshly loaded modules: no letter table, list of '
         'options or cached value is changed by a conversion in a way a later one can see. The lists of options the caller hands '
         'over are left as they were.',
         'every text of the stated alphabet, histories of 14 conversions in both orders and repeated',
         'tables are lists shared by all conversions and are handed out without copying; a change in place shows only in a later '
         'conversion of another script, and the tests convert each pair once in a fixed order',
         ['transliterate.py', 'GeneralMap.py', 'Convert.py', 'ConvertFix.py', 'PreProcess.py'],
         [('tables handed out', 'GeneralMap.py:CrunchList'), ('option lists', 'transliterate.py:convert_default'),
          ('routing of RomanLoC', 'transliterate.py:convert'), ('options per script', 'GeneralMap.py:LoCTgtPostOptions')])
    prop('C12', 'Autodetection reads a text as if its script had been named',
         'With autodetect as source, a text in a script that can be told by its letters is converted exactly as when that script is named, '
         'whatever spaces, punctuation, digits and line breaks stand between the letters, and with the target given by identifier, script code, '
         'language code or language name. The three spellings of Thai and Lao that show by their signs (with killer, with written short a, phonetic) are told '
         'apart, Assamese, Mon and Lao Pali by their own letters. Text without letters, the empty text included, comes out as it is. '
         'Scripts that share all letters with another, and Latin schemes, are outside.',
         'every text of the stated alphabet in 99 scripts',
         'detection counts characters and looks for single signs; a wrong guess depends on the mixture of letters, spaces and digits, '
         'and the tests always name the source',
         ['transliterate.py', 'gimeltra.py'],
         [('detection', 'transliterate.py:auto_detect'), ('detection of the spelling', 'transliterate.py:detect_preoptions'),
          ('other scripts', 'gimeltra.py:auto_script')])
    prop('C13', 'Every way of naming a script selects that script',
         'A script may be named by its identifier in any letter case, by its ISO 15924 code, by a two- or three-letter language code, by language and '
         'script code together, or by the name of the language: the conversion is the same as with the identifier, for source and target, in any letter '
         'case of the code. Where a code belongs to several orthographies the customary one is taken (Beng is Bengali, mr is Devanagari, sa-Gran is Grantha). '
         'Option names are accepted in any letter case, and unknown ones change nothing.',
         'every letter case of every name, 178 identifiers and some 300 codes and names',
         'codes are matched against a table by hand-written loops with separate branches for source and target; the tests use identifiers',
         ['transliterate.py'],
         [('identifiers', 'transliterate.py:process_default'), ('script codes', 'transliterate.py:process_script_tag'),
          ('language codes', 'transliterate.py:process_lang_tag'), ('language names', 'transliterate.py:process_lang_name'), ('options', 'transliterate.py:convert_default')])
    prop('C14', 'Converting a file converts its text and changes nothing else in it',
         'Converting a text, HTML or Word file, from disk or in API mode, gives a new file in which every text is what the conversion of that text alone gives '
         'with the same settings (nativization, pre-options, post-options), and everything else is as it was: doctype, comments, scripts, style '
         'sheets, tags and attributes of a page; field codes, empty runs and the other parts of a Word file. The input file is not touched.',
         'every text of the stated alphabet, fourteen pairs of scripts, four kinds of file',
         'no test converts a file; settings are passed on through several calls, and one exchanged argument shows only with options',
         ['transliterate_file.py'],
         [('text files', 'transliterate_file.py:convert_txt'), ('HTML', 'transliterate_file.py:convert_html'), ('Word', 'transliterate_file.py:xml_file_to_convert')])
