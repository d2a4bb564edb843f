From 5793f3dd47ce4a2c07c564efba77faa5dc38f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 01/30] =?UTF-8?q?fix:=20Gurmukhi=20gemination=20sign=20los?=
 =?UTF-8?q?t=20or=20altered=20nukta=20consonants=20(=E0=A4=B6=E0=A5=8D?=
 =?UTF-8?q?=E0=A4=B7=20->=20=E0=A4=B7=E0=A5=8D=E0=A4=B7,=20=E0=A4=95?=
 =?UTF-8?q?=E0=A4=BC=E0=A5=8D=E0=A4=95=E0=A4=BC=20->=20=E0=A4=95=E0=A5=8D?=
 =?UTF-8?q?=E0=A4=95=E0=A4=BC)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PostProcess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..7898084 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2573,7 +2573,8 @@ def InsertGeminationSign(Strng,Target): #Fix this
     ConAsp   = [GM.CrunchList('ConsonantMap', Target)[x] for x in [1,3,6,8,11,13,16,18,21,23]]
     ConOthrs = [GM.CrunchList('ConsonantMap', Target)[x] for x in [0,2,5,7,10,12,15,17,20,22,4,9,14,19,24]]
 
-    Strng = re.sub('('+'|'.join(ConUnAsp)+')'+'('+vir+')'+r'\1',GM.Gemination[Target]+r'\1',Strng)
+    # A letter followed by a (Gurmukhi) nukta is a different consonant: not a geminate
+    Strng = re.sub('('+'|'.join(ConUnAsp)+')'+'('+vir+')'+r'\1(?!\u0A3C)',GM.Gemination[Target]+r'\1',Strng)
 
     for i in range(len(ConAsp)):
         Strng = re.sub('('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')',GM.Gemination[Target]+r'\3',Strng)
@@ -2591,7 +2592,7 @@ def ReverseGeminationSign(Strng,Target): #Fix this
     if Target == 'Gurmukhi':
         Strng = Strng.replace('ੱਸ਼਼', 'ਸ਼਼੍ਸ਼਼')
 
-    Strng = re.sub('(' + GM.Gemination[Target] + ')' + '('+'|'.join(ConUnAsp)+')', r'\2' + vir + r'\2', Strng)
+    Strng = re.sub('(' + GM.Gemination[Target] + ')' + '('+'|'.join(sorted(ConUnAsp, key=len, reverse=True))+')', r'\2' + vir + r'\2', Strng)
 
     for i in range(len(ConAsp)):
         Strng = re.sub('(' + GM.Gemination[Target] + ')' + '(' + ConAsp [i] +')', ConUnAsp[i] + vir + r'\2', Strng)
-- 
2.43.0


From 4fcd3462bcabc3f4c15ef58689bc9b3e0083f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 02/30] =?UTF-8?q?fix:=20Gurmukhi=20doubled=20addak=20for?=
 =?UTF-8?q?=20clusters=20such=20as=20=E0=A4=A4=E0=A5=8D=E0=A4=A4=E0=A5=8D?=
 =?UTF-8?q?=E0=A4=A5?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PostProcess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 7898084..4e14195 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2576,8 +2576,9 @@ def InsertGeminationSign(Strng,Target): #Fix this
     # A letter followed by a (Gurmukhi) nukta is a different consonant: not a geminate
     Strng = re.sub('('+'|'.join(ConUnAsp)+')'+'('+vir+')'+r'\1(?!\u0A3C)',GM.Gemination[Target]+r'\1',Strng)
 
+    # and two (Gurmukhi) addak do not follow each other
     for i in range(len(ConAsp)):
-        Strng = re.sub('('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')',GM.Gemination[Target]+r'\3',Strng)
+        Strng = re.sub('(?<!\u0A71)('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')',GM.Gemination[Target]+r'\3',Strng)
 
     return Strng
 
-- 
2.43.0


From dbd238b8981eba7a87d1e77d82f8d638aa784877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 03/30] =?UTF-8?q?fix:=20SLP1=20nukta=20collided=20with=20t?=
 =?UTF-8?q?he=20letter=20Q=20(=E0=A4=A2),=20=E0=A4=95=E0=A4=A2=20became=20?=
 =?UTF-8?q?kQaa?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ScriptMap/Roman/SLP1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/Roman/SLP1.py b/aksharamukha/ScriptMap/Roman/SLP1.py
index ffba148..c6b5ee5 100644
--- a/aksharamukha/ScriptMap/Roman/SLP1.py
+++ b/aksharamukha/ScriptMap/Roman/SLP1.py
@@ -120,7 +120,7 @@ SinhalaConsonantMap =[
                       ]
 
 NuktaMap = [
-           '\u0051'
+           '\u0308'
            ]
 
 OmMap = [
-- 
2.43.0


From 1c7501e76a92e972a4c402bbda454f323bac3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 04/30] =?UTF-8?q?fix:=20Nandinagari=20LLA=20was=20read=20b?=
 =?UTF-8?q?ack=20as=20LLLA=20(=E0=A4=B3=20and=20=E0=A4=B4=20swapped=20in?=
 =?UTF-8?q?=20the=20letter=20table)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ScriptMap/MainIndic/Nandinagari.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/MainIndic/Nandinagari.py b/aksharamukha/ScriptMap/MainIndic/Nandinagari.py
index 42a57ac..06f5462 100644
--- a/aksharamukha/ScriptMap/MainIndic/Nandinagari.py
+++ b/aksharamukha/ScriptMap/MainIndic/Nandinagari.py
@@ -115,8 +115,8 @@ ConsonantMap =  [
                 ]
 
 SouthConsonantMap = [
-                    '\U000119CF\u02BD',
                     '\U000119CF',
+                    '\U000119CF\u02BD',
                     '\U000119D0',
                     '\U000119C1\u02BD'
                     ]
-- 
2.43.0


From 69f7b71dc4776ba3c9b2cd0f331dedeea3ce1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:51 +0000
Subject: [PATCH 05/30] =?UTF-8?q?fix:=20no=20hiatus=20separator=20after=20?=
 =?UTF-8?q?a=20nukta=20sign=20when=20romanizing=20(=E0=A4=98=E0=A4=BC?=
 =?UTF-8?q?=E0=A4=89=20became=20ghau,=20read=20back=20as=20=E0=A4=98?=
 =?UTF-8?q?=E0=A4=BC=E0=A5=8C)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..873c1dc 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -189,7 +189,7 @@ def FixRomanOutput(Strng,Target):
         Strng = Strng.replace('u' + Virama, Virama + 'ŭ')
 
     # कि कइ - ki -> k_i
-    Strng = re.sub('(?<='+Schwa+DepV+')'+'('+VowelIU+')',r'_\1',Strng)
+    Strng = re.sub('((?<='+Schwa+DepV+')|(?<='+Schwa+Nukta+DepV+'))'+'('+VowelIU+')',r'_\2',Strng)
     # Output: kʌ× kʌ×a kʌ kʌā kʌr̥ kʌ×hʌ bʌ̄× bʌ̄ bʌ̄ō bhʌ× bhʌ bhʌā kʌi kʌṿ_i kʌṿī
 
     # अइ अउ --> a_i a_u
-- 
2.43.0


From f65d99fa3ac485b360f5449c15fcb81b87ac5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 06/30] =?UTF-8?q?fix:=20Tai=20Tham=20mai=20kang=20lai=20wa?=
 =?UTF-8?q?s=20read=20back=20only=20after=20a=20bare=20consonant=20(?=
 =?UTF-8?q?=E0=A4=B2=E0=A4=BF=E0=A4=99=E0=A5=8D=E0=A4=97,=20=E0=A4=85?=
 =?UTF-8?q?=E0=A4=99=E0=A5=8D=E0=A4=97=20lost=20their=20nasal)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 873c1dc..4a23cab 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3301,7 +3301,7 @@ def FixTaiTham(Strng,reverse=False):
     else:
         AA = 'ᩣ'
         Strng = Strng.replace('ᩔ', 'ᩈ᩠ᩈ') ## Reverse great sa
-        Strng = re.sub('('+ListC+')'+'\u1A58',r'\1' + ng,Strng) # Reverse: Kai mang Lai -> ng + virama
+        Strng = Strng.replace('\u1A58', ng) # Reverse: Kai mang Lai -> ng + virama
         Strng = Strng.replace('\u1A60',vir) # Regular Virama for Transliteration
         Strng = Strng.replace("ᩤ", AA) # Reverse Tall A
 
-- 
2.43.0


From 6e9ff5ee7a085a56b851b5165f3ac48e2176e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 07/30] =?UTF-8?q?fix:=20Tai=20Tham=20clusters=20with=20ra?=
 =?UTF-8?q?=20and=20ya=20were=20read=20back=20in=20the=20wrong=20order=20(?=
 =?UTF-8?q?=E0=A4=AE=E0=A5=8D=E0=A4=B0=E0=A5=8D=E0=A4=AF=20as=20=E0=A4=AE?=
 =?UTF-8?q?=E0=A5=8D=E0=A4=AF=E0=A5=8D=E0=A4=B0)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ConvertFix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 4a23cab..4d32809 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3262,6 +3262,9 @@ def FixTaiTham(Strng,reverse=False):
     Cons = [vir+x for x in [TaiTham.ConsonantMap[x] for x in [26,27]]] # /ra/ and /la/
     Sub =['\u1A55','\u1A56'] # Subjoined Forms of /ra/ and /la/
 
+    if reverse:
+        Strng = Strng.replace('\u1A60\u1A3F\u1A55', '\u1A55\u1A60\u1A3F') # Reverse krya
+
     # Ra/La + vira -> Subjoined
     for x,y in zip(Cons,Sub):
         if not reverse:
@@ -3305,8 +3308,6 @@ def FixTaiTham(Strng,reverse=False):
         Strng = Strng.replace('\u1A60',vir) # Regular Virama for Transliteration
         Strng = Strng.replace("ᩤ", AA) # Reverse Tall A
 
-        Strng = Strng.replace('\u1A60\u1A3F\u1A55', '\u1A55\u1A60\u1A3F') # Rever krya
-
 
     return Strng
 
-- 
2.43.0


From aaac7296150e95641d1499ef222a4aa8854e56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 08/30] =?UTF-8?q?fix:=20Dives=20Akuru=20initial=20ra=20was?=
 =?UTF-8?q?=20read=20back=20in=20the=20wrong=20order=20(=E0=A4=B0=E0=A5=8D?=
 =?UTF-8?q?=E0=A4=95=20as=20=E0=A5=8D=E0=A4=B0=E0=A4=95)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 4d32809..0d3c2a1 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1465,7 +1465,7 @@ def FixDivesAkuru(Strng,reverse=False):
         # Reverse : Replace Explicit Virama + Cons -> Subjoining Virama + Cons
         Strng = re.sub('\U00011940', vir +ya, Strng)
         # Reverse : Introduce Repha : ra + sub Virama + Cons -> Cons + Repha
-        Strng = re.sub('\U00011941', vir +ra, Strng)
+        Strng = re.sub('\U00011941', ra + vir, Strng)
 
 
     return Strng
-- 
2.43.0


From 6733dcb9755d6ef0f7d97a04eae50c0fbd2348ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 09/30] =?UTF-8?q?fix:=20candra=20vowels=20were=20written?=
 =?UTF-8?q?=20as=20bare=20combining=20marks=20in=20Semitic=20scripts=20(?=
 =?UTF-8?q?=E0=A4=8D,=20=E0=A4=91)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ScriptMap/Roman/RomanSemitic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/Roman/RomanSemitic.py b/aksharamukha/ScriptMap/Roman/RomanSemitic.py
index fd04c62..976e39c 100644
--- a/aksharamukha/ScriptMap/Roman/RomanSemitic.py
+++ b/aksharamukha/ScriptMap/Roman/RomanSemitic.py
@@ -25,8 +25,8 @@ SouthVowelMap = [
                 ]
 
 ModernVowelMap = [
-                 'ē̂\u02BD',
-                 'ā̂\u02BD'
+                 'ē̂\u02BD',
+                 'ā̂\u02BD'
                  ]
 
 SinhalaVowelMap = [
-- 
2.43.0


From 900e66cd635c8a04feea5e80fcbc963815ccac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 10/30] =?UTF-8?q?fix:=20the=20nukta=20mark=20Q=20leaked=20?=
 =?UTF-8?q?into=20Semitic=20output=20for=20letters=20without=20a=20Semitic?=
 =?UTF-8?q?=20equivalent=20(=E0=A4=98=E0=A4=BC)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PostProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 4e14195..e6e9960 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -724,6 +724,9 @@ def FixSemiticRoman(Strng, Target):
     for s, i in SemiticIndic:
         Strng = Strng.replace(i, s)
 
+    # a nukta on any other letter has no Semitic equivalent
+    Strng = Strng.replace('Q', '')
+
     Strng = Strng.replace('\u033d\u033d', '\u033d')
 
     #print('Strng is ' + Strng)
-- 
2.43.0


From 996cff6dde9c804f79fdea282a8a3b70e54734cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 11/30] fix: Soyombo wrote DDDHA as a Zanabazar Square letter
 and RHA, FA, YYA as the wrong letters

---
 aksharamukha/ScriptMap/EastIndic/Soyombo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/EastIndic/Soyombo.py b/aksharamukha/ScriptMap/EastIndic/Soyombo.py
index 6b31896..048e1aa 100644
--- a/aksharamukha/ScriptMap/EastIndic/Soyombo.py
+++ b/aksharamukha/ScriptMap/EastIndic/Soyombo.py
@@ -127,10 +127,10 @@ NuktaConsonantMap =  [
                      '\U00011A5D\u02BD',
                      '\U00011A5E\u02BD',
                      '\U00011A79',
-                     '\U00011A16\u02BD',
                      '\U00011A68\u02BD',
                      '\U00011A69\u02BD',
-                     '\U00011A71\u02BD'
+                     '\U00011A71\u02BD',
+                     '\U00011A7B\u02BD'
                      ]
 
 SinhalaConsonantMap =[
-- 
2.43.0


From da5210b2015d56b35902facd415749e4974d4d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 12/30] =?UTF-8?q?fix:=20i=20followed=20by=20y=20with=20its?=
 =?UTF-8?q?=20own=20vowel=20was=20read=20as=20a=20long=20i=20in=20Hebrew?=
 =?UTF-8?q?=20and=20Perso-Arabic=20scripts=20(=E0=A4=AA=E0=A5=8D=E0=A4=B0?=
 =?UTF-8?q?=E0=A4=BF=E0=A4=AF=20came=20back=20as=20=E0=A4=AA=E0=A5=8D?=
 =?UTF-8?q?=E0=A4=B0=E0=A5=80a)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PreProcess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..ef885df 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -506,6 +506,10 @@ def FixSemiticRoman(Strng, Source):
     # remove sin/shin dot
     Strng = Strng.replace('\u032A', '').replace('\u032E', '')
 
+    ## i + Yod/Ye with its own vowel is i + y, not the long vowel: kīa -> kiya
+    if 'Arab' in Source or Source == 'Hebr':
+        Strng = re.sub('ī(\u0302?)(?=꞉?[aāiīuūeēoō])', r'i\1y', Strng).replace('i\u0302', 'î')
+
     # duplicate consonants
     ## move do chashmee ha + gemination sign
     ## tʰ꞉ -> t꞉ʰ
-- 
2.43.0


From 47da2c27dd7bb4d9118f2108e41fc989dd0b1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 13/30] =?UTF-8?q?fix:=20the=20hiatus=20separator=20before?=
 =?UTF-8?q?=20long=20i=20and=20u=20was=20left=20in=20the=20text=20when=20r?=
 =?UTF-8?q?omanizations=20were=20read=20(Velthuis=20ka=5Fuu=20became=20?=
 =?UTF-8?q?=E0=A4=95=5F=E0=A4=8A)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/Convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..efdef2e 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -132,6 +132,9 @@ def convertScript(Strng,Source,Target):
         ## a_i => a<dev>i<dev> ; a_u = a<dev>u<dev>
         Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[2],  GM.CrunchSymbols(GM.Vowels,Target)[2])
         Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[4],  GM.CrunchSymbols(GM.Vowels,Target)[4])
+        ## the same before long vowels: schemes such as Velthuis (a_uu) and IPA (ə_uː) write them as i.. and u..
+        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[3],  GM.CrunchSymbols(GM.Vowels,Target)[3])
+        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[5],  GM.CrunchSymbols(GM.Vowels,Target)[5])
 
         ## Joiners Vir + ZWJ
         vir = GM.CrunchList('ViramaMap', Target)[0]
-- 
2.43.0


From 85d9f6c5fffccc4aaef659a719dedeabbd1dcac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 14/30] =?UTF-8?q?fix:=20Ahom=20au=20before=20a=20final=20c?=
 =?UTF-8?q?onsonant=20was=20read=20back=20as=20a=20stray=20sign=20and=20o?=
 =?UTF-8?q?=20(=E0=A4=95=E0=A5=8C=E0=A4=AE=E0=A5=8D=20as=20=E0=A4=95?=
 =?UTF-8?q?=F0=91=9C=A7=E0=A5=8B=E0=A4=AE=E0=A5=8D)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 0d3c2a1..2f6a578 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3527,7 +3527,7 @@ def FixAhom(Strng, reverse = False):
         Strng = re.sub('(\U00011726)(.)('+vir+')', '\U00011726\U00011727'+r'\2\3', Strng)
 
         #rever closed syllable o
-        Strng = re.sub('(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
+        Strng = re.sub('(?<!\U00011727)(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
 
         Strng = Strng.replace(anu + '\U00011728', '\U00011726\U00011721\U0001172A')
 
-- 
2.43.0


From e4feaedc744a13c49b77953e8fac396a0263d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 15/30] fix: PhagsPa keeps the vowel after a consonant with
 virama inside a word

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 2f6a578..7a7928f 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2985,7 +2985,7 @@ def FixPhagsPa(Strng,reverse=False):
 
         ## Probably add more punctuations
         Strng = re.sub('(?:(?<!\n)(?<!᠂)(?<![,\.\"\?\&\(\)]))' + "(?<!" + vir + ")" + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListC+"))",r"\1 \2", Strng) #\u02BF Virama
-        Strng = re.sub('(?<!᠂)' + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListV+"))",r" \1", Strng) #\u02BF Virama
+        Strng = re.sub('(?<!᠂)(?<!\n)' + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListV+"))",r" \1\2", Strng) #\u02BF Virama
 
         Strng = Strng.replace(vir,"") #\u02BF Virama
         Strng = Strng.replace("\u1E7F","")
-- 
2.43.0


From ca834d33e4bfaef576bb776e12f43940f5c52382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 16/30] fix: Thai writes a text-initial cluster as it writes
 any word-initial one

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 7a7928f..2c80539 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2178,7 +2178,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
     #Replace \s with all punctuations
     if not reverse:
         # Comments
-        Strng = re.sub("(?<=\s)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
+        Strng = re.sub("(?<!\S)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+yrlvh+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
-- 
2.43.0


From 33b4cd76c276e3c2b3070cbc8af464e3cce05dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 17/30] fix: PhagsPa treats a word after a tab as it treats one
 after a newline

---
 aksharamukha/ConvertFix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 2c80539..3d9c9e6 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2984,8 +2984,8 @@ def FixPhagsPa(Strng,reverse=False):
         ListCE = ListC + "|" + "|".join(SubrvyE)
 
         ## Probably add more punctuations
-        Strng = re.sub('(?:(?<!\n)(?<!᠂)(?<![,\.\"\?\&\(\)]))' + "(?<!" + vir + ")" + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListC+"))",r"\1 \2", Strng) #\u02BF Virama
-        Strng = re.sub('(?<!᠂)(?<!\n)' + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListV+"))",r" \1\2", Strng) #\u02BF Virama
+        Strng = re.sub('(?:(?<![\n\t])(?<!᠂)(?<![,\.\"\?\&\(\)]))' + "(?<!" + vir + ")" + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListC+"))",r"\1 \2", Strng) #\u02BF Virama
+        Strng = re.sub('(?<!᠂)(?<![\n\t])' + '(' + ListC + ')' + vir + "((" + candraBindu +")?" + "("+ListV+"))",r" \1\2", Strng) #\u02BF Virama
 
         Strng = Strng.replace(vir,"") #\u02BF Virama
         Strng = Strng.replace("\u1E7F","")
-- 
2.43.0


From 767439c04ddb13b76f773888643d06c59fb6ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 18/30] =?UTF-8?q?fix:=20retainLatin=20protects=20=C5=8D=20?=
 =?UTF-8?q?and=20A=20(the=20two=20lists=20were=20joined=20without=20a=20sp?=
 =?UTF-8?q?ace)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index ef885df..b961a70 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -738,7 +738,7 @@ def MalayalamTranscribe(Strng):
 def retainLatin(Strng, reverse=False):
     latn_basic_lower = 'a b c d e f g h i j k l m n o p q r s t u v w x y z ḥ ṭ ṣ ʾ ʿ š ā ī ū ē ō'
     latn_basic_upper = latn_basic_lower.upper()
-    latn_all = latn_basic_lower + latn_basic_upper
+    latn_all = latn_basic_lower + ' ' + latn_basic_upper
     latn_all = latn_all.split(' ')
 
     if not reverse:
-- 
2.43.0


From fe815c44355101de69a23097840a688dadbb526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 19/30] fix: Takri distinguishes the short e and o from the
 long ones and from ai

---
 aksharamukha/ScriptMap/MainIndic/Takri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/ScriptMap/MainIndic/Takri.py b/aksharamukha/ScriptMap/MainIndic/Takri.py
index cb91760..0eb4a28 100644
--- a/aksharamukha/ScriptMap/MainIndic/Takri.py
+++ b/aksharamukha/ScriptMap/MainIndic/Takri.py
@@ -20,8 +20,8 @@ VowelMap =  [
             ]
 
 SouthVowelMap = [
-                '\U00011686',
-                '\U00011688',
+                '\U00011686\u02BD',
+                '\U00011688\u02BD',
                 ]
 
 ModernVowelMap = [
@@ -50,7 +50,7 @@ VowelSignMap =  [
                 ]
 
 SouthVowelSignMap = [
-                    '\U000116B3\u02BD',
+                    '\U000116B2\u02BD',
                     '\U000116B4\u02BD',
                     ]
 
-- 
2.43.0


From f7ea5fd68049866e2e3d42655d77806e1be9331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 20/30] fix: BatakKaro vowel signs no longer read a lone mark
 as aa

---
 aksharamukha/ScriptMap/EastIndic/BatakKaro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/EastIndic/BatakKaro.py b/aksharamukha/ScriptMap/EastIndic/BatakKaro.py
index 8e859d3..e8f0193 100644
--- a/aksharamukha/ScriptMap/EastIndic/BatakKaro.py
+++ b/aksharamukha/ScriptMap/EastIndic/BatakKaro.py
@@ -34,7 +34,7 @@ SinhalaVowelMap = [
                   ]
 
 VowelSignMap =  [
-                '\u02BD',
+                '\u02BD\u02BD',
                 '\u1BEB',
                 '\u1BEB\u02BD',
                 '\u1BEC',
@@ -56,7 +56,7 @@ SouthVowelSignMap = [
 
 ModernVowelSignMap =[
                      '\u1BE7',
-                     '\u02BD',
+                     '\u02BD\u02BD',
                     ]
 
 SinhalaVowelSignMap = [
-- 
2.43.0


From 1ef881d30087be96cdfd50703aa0fbe3805aa573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 21/30] fix: Om spelled with ordinary letters is romanized as
 Om only as a word of its own

---
 aksharamukha/Convert.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index efdef2e..eba6764 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -238,7 +238,17 @@ def convertScript(Strng,Source,Target):
         #print(Strng)
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        Strng = Strng.replace(sOm, tOm)
+        # a spelling of Om that is made of ordinary letters counts only as a word of its own
+        if len(sOm) != 1:
+            punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
+                        + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
+
+            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+            Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
+            Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
+            Strng = re.sub('^' + sOm + '$', tOm, Strng)
+        else:
+            Strng = Strng.replace(sOm, tOm)
 
         # Iterate for each character group
         for charList in GM.ScriptAll:
-- 
2.43.0


From 58983de723779e48e79034f6215dceb67ad8bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 22/30] fix: text written in characters the source script also
 uses is converted only once

---
 aksharamukha/Convert.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index eba6764..26b9bf2 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -213,11 +213,21 @@ def convertScript(Strng,Source,Target):
         #print(Strng)
 
         # Perform replacement sequentially for each character group
+        # What is written in characters of the source script as well is held back till the end,
+        # lest it be taken for source text and converted once more
+        sourceChars = set(''.join(x for x,y in charPairs))
+        held = []
         for x,y in charPairs:
             # print(x,y)
+            if sourceChars & set(y) and (y != x or len(x) > 1):
+                held.append((chr(0x100000 + len(held)), y))
+                y = held[-1][0]
             Strng = Strng.replace(x,y)
             # print(Strng)
 
+        for x,y in held:
+            Strng = Strng.replace(x,y)
+
         # print(Strng)
 
         #Strng = Strng.replace(GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0])
-- 
2.43.0


From 368fb5db9aff4b555455284130feb29ba7be6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 23/30] fix: Batak scripts, which have no Library of Congress
 table, are romanized as ISO instead of raising

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 24bc3aaa519e4fa5cf9ea5b2ce7d2c91453ce4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 24/30] fix: autodetection counted spaces, punctuation and
 ASCII digits as a script and raised on empty text

---
 aksharamukha/gimeltra.py      |  8 +++++---
 aksharamukha/transliterate.py | 10 ++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..242d9d5 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -29,9 +29,11 @@ class Transliterator(object):
         self.vocalized = ['Hebr', 'Hebr-Ar', 'Syrj', 'Syrn', 'Arab-Fa', 'Arab-Pa', 'Latn', 'Latn-No', 'Type', 'Arab', 'Arab-Ur', 'Thaa']
 
     def auto_script(self, text):
-        sc_count = Counter([ucd.script(c) for c in text])
-        sc = sc_count.most_common(1)[0][0]
-        if not sc:
+        # spaces, punctuation and combining marks are common to all scripts
+        sc_count = Counter([ucd.script(c) for c in text if ucd.script(c) not in ['Zyyy', 'Zinh']])
+        if sc_count:
+            sc = sc_count.most_common(1)[0][0]
+        else:
             sc = 'Zyyy'
         return sc
 
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..cf73bf9 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -42,7 +42,10 @@ def unique_everseen(iterable, key=None):
 def auto_detect(text, plugin = False):
     scripts = []
 
-    for uchar in text:
+    # spaces, punctuation and ASCII digits are common to all scripts
+    letters = [uchar for uchar in text if unicodedata.category(uchar)[0] in 'LMN' and not uchar in '0123456789']
+
+    for uchar in letters if len(letters) > 0 else text:
         try:
             script_name = unicodedata.name(uchar).split(' ')[0].lower()
             if script_name != 'old':
@@ -70,13 +73,16 @@ def auto_detect(text, plugin = False):
     else:
         #print('here')
         if len(script_percent) > 0:
-            if sorted(script_percent)[-1][1] == 'latin':
+            if sorted(script_percent)[-1][1] == 'latin' and len(script_percent) > 1:
                 script = sorted(script_percent)[-2][1]
             else:
                 script = sorted(script_percent)[-1][1]
         else:
             script = ''
 
+    if script == '':
+        return 'Zyyy' # undetermined
+
     inputScript = script[0].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
-- 
2.43.0


From 2a7dd9434600118dd82cccfc9a3bc0ae4f352216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 25/30] fix: autodetection of Masaram Gondi, Gunjala Gondi and
 Hanifi Rohingya gave names that are not converted

---
 aksharamukha/transliterate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index cf73bf9..53dc3b1 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -145,6 +145,12 @@ def auto_detect(text, plugin = False):
         inputScript = 'SylotiNagri'
     elif inputScript == 'Tai':
         inputScript = 'TaiTham'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Warang':
         inputScript = 'WarangCiti'
     elif inputScript == 'Siddham':
-- 
2.43.0


From 015dd0916f5bedcabbd7457ab867e0eddb4eebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 26/30] fix: autodetection with script or language codes forgot
 the style of Thai and Lao, and raised with language names

---
 aksharamukha/transliterate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 53dc3b1..e63f50a 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -713,7 +713,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -838,7 +838,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -863,8 +863,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = 'autodetect'
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From 00e007f43e317baabfb2399fa4260048a5960260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 27/30] fix: language codes after the first one of a script
 (mr, hin, tel) were not found, or gave another script

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index e63f50a..81bec7e 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -656,7 +656,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -753,7 +753,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From 769d21006f6f1e9572745e18b85ae8201a7b665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 28/30] fix: names of Semitic scripts were not recognized in
 another letter case

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 81bec7e..0499398 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -617,7 +617,7 @@ def convert_default(src, tgt, txt, nativize = True, post_options = [], pre_optio
     return convert(src, tgt, txt, nativize, pre_options, post_options)
 
 def process_default(src, tgt, txt, nativize, post_options, pre_options):
-    scriptList = GeneralMap.IndicScripts + GeneralMap.LatinScripts
+    scriptList = GeneralMap.IndicScripts + GeneralMap.LatinScripts + GeneralMap.SemiticScripts
     scriptListLower = list(map(lambda x: x.lower(), scriptList))
 
     if src == 'autodetect':
-- 
2.43.0


From 5be129d46d6b66f66e15777d3ab27e2423aa20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 29/30] fix: Word files: pre- and post-options were exchanged,
 and an empty text run raised

---
 aksharamukha/transliterate_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..b7265a9 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -95,13 +95,13 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text is not None:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From f0b048709909eb39a153da95f7c4c9901fb3f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 30/30] fix: HTML files: the doctype and comments became
 visible text, and scripts and stylesheets were converted

---
 aksharamukha/transliterate_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index b7265a9..be8a390 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -3,7 +3,7 @@ import io
 import os
 from lxml import etree
 from zipfile import ZipFile
-from bs4 import BeautifulSoup
+from bs4 import BeautifulSoup, NavigableString
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -43,6 +43,9 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # leave the doctype, comments, scripts and stylesheets as they are
+        if type(node) is not NavigableString:
+            continue
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0

