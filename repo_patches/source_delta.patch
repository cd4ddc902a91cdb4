From 0d9f22be3face32e45622ec6977e3a8e555c6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 01/54] fix: report unterminated comment, PI, CDATA or DTD
 subset as error

The scanner skipped over the end of text in these states forever.
---
 include/textwolf/xmlscanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..76299ca 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -85,6 +85,7 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
+			if (inputchr == (unsigned int)EndOfText) continue; //... the end of text is never an ordinary character to skip over
 			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
-- 
2.43.0


From 9010694615a0145e4ace0746c8fb3ba0b4f0256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 02/54] fix: recognize the end of a CDATA section after more
 than two closing brackets

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 76299ca..28bdaff 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -354,7 +354,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From 3a37f13c2d533f71761d217abbf971570e1ecbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 03/54] fix: accept a '?' inside of a processing instruction

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 28bdaff..8b195cd 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -312,7 +312,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From 3d8a676dded75dc960085aadfaf7343cdf8262f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 04/54] fix: accept an internal DTD subset following the
 document name without space

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 8b195cd..2b9e8c1 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -343,7 +343,7 @@ public:
 			[ ENTITYSL ](Osb,CDATA)(Dash,COMDASH2).fallback(ENTITY)
 			[ ENTITY   ](Gt,ENTITYE)(EndOfLine)(Cntrl)(Space)(Dq,ENTITYDQ)(Sq,ENTITYSQ)(Osb,ENTITYLC).fallback(ENTITYID)
 			[ ENTITYE  ].action(Return,DocAttribEnd).fallback(SEEKTOK)
-			[ ENTITYID ].action(ReturnIdentifier,DocAttribValue)(EndOfLine,Cntrl,Space,ENTITY)(Gt,ENTITYE).miss(ErrIllegalDocumentAttributeDef)
+			[ ENTITYID ].action(ReturnIdentifier,DocAttribValue)(EndOfLine,Cntrl,Space,ENTITY)(Gt,ENTITYE)(Osb,ENTITYLC).miss(ErrIllegalDocumentAttributeDef)
 			[ ENTITYSQ ].action(ReturnSQString,DocAttribValue)(Sq,ENTITY).miss(ErrStringNotTerminated)
 			[ ENTITYDQ ].action(ReturnDQString,DocAttribValue)(Dq,ENTITY).miss(ErrStringNotTerminated)
 			[ ENTITYLC ](Csb,ENTITY).other( ENTITYLC)
-- 
2.43.0


From 2480281a49b4d37d075ff51235d6e527d435456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 05/54] fix: print the 'x' of a malformed hexadecimal character
 reference taken as text

---
 include/textwolf/xmlscanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 2b9e8c1..d5ae652 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -582,6 +582,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
-- 
2.43.0


From 8e629e6841f29f25b2c29f59bf2d13bb12861294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 06/54] fix: print the ';' of an out of range character
 reference only once

---
 include/textwolf/xmlscanner.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index d5ae652..325f4e4 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -644,8 +644,7 @@ private:
 			{
 				if (tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
-					fallbackEntity();
+					fallbackEntity(); //... the ';' is not consumed yet and follows as ordinary character
 					return true;
 				}
 				push( (UChar)tokstate.value);
-- 
2.43.0


From e898c5ef6770420f909a9b52ab42edcb11d619e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 07/54] fix: find user defined entities by name and not by
 address of the name

---
 include/textwolf/xmlscanner.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 325f4e4..f3d5c37 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -16,6 +16,7 @@
 #include "textwolf/textscanner.hpp"
 #include "textwolf/traits.hpp"
 #include <map>
+#include <cstring>
 #include <cstddef>
 
 namespace textwolf {
@@ -485,7 +486,13 @@ public:
 public:
 	typedef TextScanner<InputIterator,InputCharSet_> InputReader;
 	typedef XMLScanner<InputIterator,InputCharSet_,OutputCharSet_,OutputBuffer_> ThisXMLScanner;
-	typedef std::map<const char*,UChar> EntityMap;
+	/// \class EntityNameLess
+	/// \brief Order of the entity names in the entity map by their string value
+	struct EntityNameLess
+	{
+		bool operator()( const char* a, const char* b) const	{return std::strcmp( a, b) < 0;}
+	};
+	typedef std::map<const char*,UChar,EntityNameLess> EntityMap;
 	typedef OutputBuffer_ OutputBuffer;
 
 private:
@@ -951,7 +958,7 @@ private:
 		}
 		else if (m_entityMap)
 		{
-			EntityMap::const_iterator itr = m_entityMap->find( str);
+			typename EntityMap::const_iterator itr = m_entityMap->find( str);
 			if (itr == m_entityMap->end())
 			{
 				error = ErrUndefinedCharacterEntity;
-- 
2.43.0


From 586e766cedc7fa075e03193a062f65afc7f35405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 08/54] fix: return the error message as error of a scanner
 iterator element

---
 include/textwolf/xmlscanner.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index f3d5c37..febaba2 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1265,11 +1265,26 @@ public:
 		{
 			if (input != 0)
 			{
-				element.m_type = input->nextItem(mask);
+				fetch( mask);
+			}
+			return *this;
+		}
+
+		/// \brief Fetch the next element from the scanner
+		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
+		void fetch( unsigned short mask=0xFFFF)
+		{
+			element.m_type = input->nextItem(mask);
+			if (element.m_type == ErrorOccurred)
+			{
+				element.m_content = getErrorString( input->error);
+				element.m_size = element.m_content?std::strlen( element.m_content):0;
+			}
+			else
+			{
 				element.m_content = input->getItemPtr();
 				element.m_size = input->getItemSize();
 			}
-			return *this;
 		}
 
 		/// \brief Compare iterator with another
@@ -1305,9 +1320,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch();
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From fb355d7a24459d2debdc217ad80cef1358c220ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 09/54] fix: copy the token state when copying an XML scanner

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index febaba2..8caf0fd 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1025,11 +1025,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From 3922e63de865a1aab336acdbb075caa130171094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 10/54] fix: detect an UTF-16 high surrogate followed by a
 character below the low surrogates

---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..f4bc940 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -128,7 +128,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From d9fecb6d9ede2d4fda2b7628114b01012dee7d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 11/54] fix: fetch both units of an UTF-16 surrogate pair

---
 include/textwolf/charset_utf16.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index f4bc940..1a4bd2c 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -66,6 +66,15 @@ public:
 			++itr;
 			++bufpos;
 		}
+		if ((UChar)(unsigned char)buf[ MSB] - 0xD8 <= 0x03)
+		{
+			//... surrogate pair
+			for (; bufpos<4; ++bufpos)
+			{
+				buf[ bufpos] = *itr;
+				++itr;
+			}
+		}
 	}
 
 	/// \brief Get the size of the current character in bytes (variable length encoding)
-- 
2.43.0


From 7ab7e72408d22446f95d7b7c3ec3958ab33bd803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 12/54] fix: do not skip over the end of a chunk inside of a
 character

Skipping incremented the source iterator without reading it, so a chunk
boundary inside of a skipped character was not recognized and the rest of
the character was taken as new character in the next chunk.
---
 include/textwolf/charset_isolatin.hpp |  8 ++------
 include/textwolf/charset_ucs.hpp      | 14 ++++----------
 include/textwolf/charset_utf16.hpp    |  6 +-----
 include/textwolf/charset_utf8.hpp     |  6 +-----
 4 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..4ed09c4 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -35,13 +35,9 @@ struct IsoLatin :public IsoLatinCodePage
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		if (bufpos==0)
-		{
-			++itr;
-			++bufpos;
-		}
+		fetchbytes( buf, bufpos, itr); //... read all bytes, so that the end of a chunk is recognized
 	}
 
 	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_ucs.hpp b/include/textwolf/charset_ucs.hpp
index 8418ccb..cc1b0ed 100644
--- a/include/textwolf/charset_ucs.hpp
+++ b/include/textwolf/charset_ucs.hpp
@@ -41,12 +41,9 @@ struct UCS2
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		for (;bufpos < 2; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr); //... read all bytes, so that the end of a chunk inside of a character is recognized
 	}
 
 	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
@@ -166,12 +163,9 @@ struct UCS4
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		for (;bufpos < 4; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr); //... read all bytes, so that the end of a chunk inside of a character is recognized
 	}
 
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 1a4bd2c..d5ec212 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -101,11 +101,7 @@ public:
 	template <class Iterator>
 	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		unsigned int bufsize = size( buf, bufpos, itr);
-		for (;bufpos < bufsize; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr); //... read all bytes, so that the end of a chunk inside of a character is recognized
 	}
 
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index ac781ec..b1bf760 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -91,11 +91,7 @@ struct UTF8
 	template <class Iterator>
 	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		unsigned int bufsize = size( buf, bufpos, itr);
-		for (;bufpos < bufsize; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr); //... read all bytes, so that the end of a chunk inside of a character is recognized
 	}
 
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
-- 
2.43.0


From 1a96349e0a3d1828c8a54b42be4c887524fcd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 13/54] fix: look up characters beyond 255 when printing
 IsoLatin code pages

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..88e70e9 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From d0080c811f0977fe50424fd972d1f465f72e17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 14/54] fix: correct the tables of code page 3 (ISO-8859-3)

The unassigned positions were left out of the tables, so that all characters
following were shifted. The replacement character U+FFFD is used for them now.
---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index 88e70e9..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From 3bc96c3e1070a4dbb28d5eabcdc8991d641923da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/54] fix: print characters not representable in UTF-8 as
 numeric entities

---
 include/textwolf/charset_utf8.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index b1bf760..00d7174 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -161,6 +161,14 @@ struct UTF8
 			buf.push_back( (char)(unsigned char)chr);
 			return;
 		}
+		if (chr > (UChar)MaxChar)
+		{
+			char tb[ 32];
+			char* cc = tb;
+			Encoder::encode( chr, tb, sizeof(tb));
+			while (*cc) buf.push_back( *cc++);
+			return;
+		}
 		unsigned int pp,sf;
 		for (pp=1,sf=5; pp<5; pp++,sf+=5)
 		{
-- 
2.43.0


From e3c031d0464b9bca464902875fe7a646ab00149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 16/54] fix: free the memory of copies of a static buffer
 exactly once

---
 include/textwolf/staticbuffer.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..1c19bc2 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
@@ -53,6 +53,24 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* ar = (char*)std::malloc( o.m_size * sizeof(char));
+			if (!ar) throw std::bad_alloc();
+			std::memcpy( ar, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free(m_ar);
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_ar = ar;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From 18f835c76e6afcf3bd9cbfc45d68df9aefd09dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 17/54] fix: throw when accessing the element one past the end
 of a static buffer

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 1c19bc2..93bb562 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -141,7 +141,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -150,7 +150,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From 91650136b01a14c920fc697a690a959767da0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 18/54] fix: initialize and assign input stream iterators
 properly

The destructor of a default constructed iterator freed an uninitialized
pointer and an assignment let two iterators free the same buffer.
---
 include/textwolf/istreamiterator.hpp | 41 ++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..b657755 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -10,8 +10,8 @@
 
 #ifndef __TEXTWOLF_ISTREAM_ITERATOR_HPP__
 #define __TEXTWOLF_ISTREAM_ITERATOR_HPP__
-#include "textwolf/exception.hpp"
 #include "textwolf/position.hpp"
+#include "textwolf/exception.hpp"
 #include <iostream>
 #include <fstream>
 #include <iterator>
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -116,10 +117,27 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o iterator to copy
 	IStreamIterator( const IStreamIterator& o)
-		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
+		:m_input(o.m_input),m_buf(0),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
 	{
-		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		m_buf = copybuf( o);
+	}
+
+	/// \brief Assignment
+	/// \param [in] o iterator to assign
+	IStreamIterator& operator=( const IStreamIterator& o)
+	{
+		if (this != &o)
+		{
+			char* buf = copybuf( o);
+			std::free(m_buf);
+			m_input = o.m_input;
+			m_buf = buf;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
 	}
 
 	/// \brief Element access
@@ -157,12 +175,23 @@ private:
 	bool fillbuf()
 	{
 		m_abspos += m_readsize;
-		m_readsize = m_input->read( m_buf, m_bufsize);
+		m_readsize = 0;
 		m_readpos = 0;
+		if (!m_input) return false;
+		m_readsize = m_input->read( m_buf, m_bufsize);
 		if (m_input->errorcode()) throw exception( FileReadError);
 		return true;
 	}
 
+	static char* copybuf( const IStreamIterator& o)
+	{
+		if (!o.m_buf) return 0;
+		char* rt = (char*)std::malloc( o.m_bufsize);
+		if (!rt) throw std::bad_alloc();
+		std::memcpy( rt, o.m_buf, o.m_readsize);
+		return rt;
+	}
+
 private:
 	IStream* m_input;
 	char* m_buf;
-- 
2.43.0


From 5339da4f3190654a20e47bb178a2dd5845797ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 19/54] fix: count the position of an input stream iterator
 past the end of input

The scanner subtracts the bytes of its current character from the position of
the iterator and got a wrong position at the end of the input.
---
 include/textwolf/istreamiterator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index b657755..0836f61 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -150,7 +150,11 @@ public:
 	/// \brief Pre increment
 	inline IStreamIterator& operator++()
 	{
-		if (m_readpos+1 >= m_readsize)
+		if (m_readpos >= m_readsize)
+		{
+			++m_readpos; //... past the end of input
+		}
+		else if (m_readpos+1 == m_readsize)
 		{
 			fillbuf();
 		}
@@ -163,7 +167,7 @@ public:
 
 	int operator - (const IStreamIterator& o) const
 	{
-		return (int)m_readpos - o.m_readpos;
+		return (int)(position() - o.position());
 	}
 
 	PositionIndex position() const
-- 
2.43.0


From 5c9787902a0379cfaa696b03be4f5276e6cbf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 20/54] fix: report a stream read failure also if the stream
 did not set errno

---
 include/textwolf/istreamiterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 0836f61..f4b9568 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -68,13 +68,13 @@ public:
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno?errno:EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno?errno:EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From 3fdb26726d77552f49c9d654fb6972c61572163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 21/54] fix: return the right name for all exception causes

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From c3686c5b1940f6efd3b037946a5e9cf3c81f95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 22/54] fix: copy the memory block when assigning a tag stack

---
 include/textwolf/xmltagstack.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..345bb63 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -44,6 +44,22 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* ptr = (char*)std::malloc( o.m_size);
+			if (!ptr) throw std::bad_alloc();
+			std::memcpy( ptr, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = ptr;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From f0c7ba9ebaf08ebe91bd27a1ddfaec4d8fde1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 23/54] fix: free the buffer of an input stream iterator if the
 first read fails

---
 include/textwolf/istreamiterator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index f4b9568..0e83082 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -111,7 +111,15 @@ public:
 		:m_input(input),m_buf((char*)std::malloc(bufsize)),m_bufsize(bufsize),m_readsize(0),m_readpos(0),m_abspos(0)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		fillbuf();
+		try
+		{
+			fillbuf();
+		}
+		catch (...)
+		{
+			std::free( m_buf);
+			throw;
+		}
 	}
 
 	/// \brief Copy constructor
-- 
2.43.0


From 15c927fe4574f52cf0f9cdeb6832af6e02d92b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 24/54] fix: escape carriage returns in content printed

They were read back as line feeds (end of line normalization).
---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..050792d 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From 43be738094f11b2dc214ada9be0b9f19e35f74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 25/54] fix: print header and document type with a wide
 application character set

The ASCII literals of the printer were decoded with the application character set.
---
 include/textwolf/xmlprinter.hpp | 38 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 050792d..237eb38 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -122,6 +122,14 @@ public:
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
+	/// \brief Prints an ASCII string of the printer itself (not in the application character set) to a buffer
+	/// \param [in] str null terminated ASCII string to print
+	/// \param [out] buf buffer to print to
+	void printLiteral( const char* str, BufferType& buf) const
+	{
+		for (; *str; ++str) m_output.print( (UChar)(unsigned char)*str, buf);
+	}
+
 	/// \brief Prints a character to an STL back insertion sequence buffer in the IO character set encoding
 	/// \param [in] ch character to print
 	/// \param [in,out] buf buffer to print to
@@ -170,17 +178,17 @@ public:
 			return false;
 		}
 		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
-		printToBuffer( enc.c_str(), enc.size(), buf);
+		printLiteral( "<?xml version=\"1.0\" encoding=\"", buf);
+		printLiteral( enc.c_str(), buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
-			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
+			printLiteral( "\" standalone=\"", buf);
+			printLiteral( standalone, buf);
+			printLiteral( "\"?>\n", buf);
 		}
 		else
 		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printLiteral( "\"?>\n", buf);
 		}
 		m_state = Content;
 		return true;
@@ -203,27 +211,27 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printLiteral( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
+				printLiteral( " PUBLIC \"", buf);
 				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
+				printLiteral( "\" \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printLiteral( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printLiteral( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
+				printLiteral( " SYSTEM \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printLiteral( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
+				printLiteral( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printLiteral( ">", buf);
 			}
 		}
 		return true;
-- 
2.43.0


From 292000241125ceee66d310c30a4d23ad4446bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 26/54] fix: parse numeric entities in the keys of path
 expressions

---
 include/textwolf/xmlscanner.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 8caf0fd..07bc575 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -830,7 +830,17 @@ public:
 				}
 				else if (ch == Amp)
 				{
-					pc = parseStaticNumericEntityValue( ir);
+					InputReader er( ir);
+					er.skip();
+					pc = parseStaticNumericEntityValue( er);
+					if (pc)
+					{
+						ir = er;
+					}
+					else
+					{
+						pc = '&'; //... not a numeric entity
+					}
 				}
 				else
 				{
-- 
2.43.0


From 9de743977f33548d8e222cb5f7ce541f59be5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 27/54] fix: compare the whole value in attribute conditions

The value of a condition was cut at the first character not allowed in a tag name.
---
 include/textwolf/xmlpathautomaton.hpp |  5 +++--
 include/textwolf/xmlscanner.hpp       | 10 ++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..3c86386 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -581,7 +581,8 @@ public:
 		///\return *this
 		PathElement& doSelect( Operation op, const char* value)
 		{
-			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const XMLScannerBase::IsAttributeValueCharMap isValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -590,7 +591,7 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					if (!StaticXMLScanner::parseStaticToken( op == ThisAttributeValue?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 07bc575..4b85ac6 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -395,6 +395,16 @@ public:
 		}
 	};
 
+	/// \class IsAttributeValueCharMap
+	/// \brief Defines the set of characters of an attribute value
+	struct IsAttributeValueCharMap :public IsContentCharMap
+	{
+		IsAttributeValueCharMap()
+		{
+			(*this)(Lt,true);
+		}
+	};
+
 	/// \class IsSQStringCharMap
 	/// \brief Defines the set characters belonging to a single quoted string
 	struct IsSQStringCharMap :public IsContentCharMap
-- 
2.43.0


From 1266b98f02f66b88bd97fc94fb5d09472d481815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 28/54] fix: do not cut the keys of path expressions after 1024
 bytes

---
 include/textwolf/xmlpathautomaton.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 3c86386..7d40193 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -587,15 +587,14 @@ public:
 			{
 				if (value)
 				{
-					char buf[ 1024];
-					StaticBuffer pb( buf, sizeof(buf));
+					std::string pb;
 					char* itr = const_cast<char*>(value);
-					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
+					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
 					if (!StaticXMLScanner::parseStaticToken( op == ThisAttributeValue?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
+					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.c_str(), value, follow);
 				}
 				else
 				{
-- 
2.43.0


From 3be363ae4fc5ad84960a61da44b7818ac5736e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 29/54] fix: accept all non ASCII characters as identifiers in
 path expressions

Only the lowest byte of a character was compared with the set of operators.
---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..77283ac 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -282,7 +282,7 @@ private:
 		if (src.control() == Undef || src.control() == Any)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			return (*src > 127 || 0==std::strchr( opchr, *src));
 		}
 		return false;
 	}
-- 
2.43.0


From 1381d220e8ee4c605ad7914373d5f2ef68ce93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 30/54] fix: terminate the identifiers of path expressions for
 wide character sets

---
 include/textwolf/xmlpathautomatonparse.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 77283ac..9c3b1a1 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -301,7 +301,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
-			return idlist.back().c_str();
+			return terminated( idlist.back());
 		}
 		const char* parseValue( SrcScanner& src)
 		{
@@ -314,7 +314,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
-				return idlist.back().c_str();
+				return terminated( idlist.back());
 			}
 			else if (isIdentifierChar(src))
 			{
@@ -342,6 +342,12 @@ private:
 		}
 
 	private:
+		static const char* terminated( std::string& id)
+		{
+			id.append( 4, '\0'); //... null termination for all character sets
+			return id.c_str();
+		}
+
 		const AtmCharSet* atmcharset;
 		std::list<std::string> idlist;
 	};
-- 
2.43.0


From 5b161931f549cf618d76dc515c72ec012cab53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 31/54] fix: copy the context when copying a path selector

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..acaf345 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -333,7 +333,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From 5e0a03db39257e7146cc75a9b080d7ca9a766668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 32/54] fix: close the scope of a tag exactly once

It was closed by the destructor of every copy of the result iterator.
---
 include/textwolf/xmlpathselect.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index acaf345..cac8813 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -62,9 +62,10 @@ private:
 		unsigned int keysize;			//< size of string value in bytes of element processed
 		Scope scope;				//< active scope
 		unsigned int scope_iter;		//< position of currently visited token in the active scope
+		bool closing;				//< true, if the active scope has to be closed after processing the current element
 
 		/// \brief Constructor
-		Context()				:type(XMLScannerBase::Content),key(0),keysize(0) {}
+		Context()				:type(XMLScannerBase::Content),key(0),keysize(0),scope_iter(0),closing(false) {}
 
 		/// \brief Initialization
 		/// \param [in] p_type type of the current element processed
@@ -116,6 +117,7 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		closeProcessElement(); //... in case that not all results of the previous element were fetched
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -125,6 +127,7 @@ private:
 		context.scope.range.tokenidx_to = tokens.size();
 		context.scope.range.followidx = follows.size();
 		context.init( type, key, keysize);
+		context.closing = (type == XMLScannerBase::CloseTag || type == XMLScannerBase::CloseTagIm);
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			// first step of open scope saves the context context on stack
@@ -137,8 +140,9 @@ private:
 
 	void closeProcessElement()
 	{
-		if (context.type == XMLScannerBase::CloseTag || context.type == XMLScannerBase::CloseTagIm)
+		if (context.closing)
 		{
+			context.closing = false;
 			if (!scopestk.empty())
 			{
 				context.scope = scopestk.back();
@@ -276,6 +280,7 @@ private:
 					{
 						context.key = 0;
 						context.keysize = 0;
+						closeProcessElement();
 						return 0; //end of all candidates
 					}
 				}
@@ -285,6 +290,7 @@ private:
 		{
 			context.key = 0;
 			context.keysize = 0;
+			closeProcessElement();
 		}
 		return type;
 	}
@@ -401,11 +407,6 @@ public:
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
 			:element(0),input(0) {}
-- 
2.43.0


From 4e6e32765961c316e22a91f24a9b2ee869865e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 33/54] fix: do not give up searching attributes in all
 descendants after content

Whether this happened depended on the other expressions of the automaton.
---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index cac8813..2e0f5c2 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -238,7 +238,7 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (tk->core.mask.rejects( context.type) && !tk->core.follow)
 			{
 				//The token must not match anymore after encountering a reject item
 				tk->core.mask.reset();
-- 
2.43.0


From 26b547e80dd835a820ee9db7d12bdd463f62e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 34/54] fix: forget the steps matched by the XML header at its
 end

They remained active for the document, so that e.g. "/*/b" selected a root element <b>.
---
 include/textwolf/xmlpathselect.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 2e0f5c2..216432e 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -127,7 +127,12 @@ private:
 		context.scope.range.tokenidx_to = tokens.size();
 		context.scope.range.followidx = follows.size();
 		context.init( type, key, keysize);
-		context.closing = (type == XMLScannerBase::CloseTag || type == XMLScannerBase::CloseTagIm);
+		context.closing = (type == XMLScannerBase::CloseTag || type == XMLScannerBase::CloseTagIm || type == XMLScannerBase::HeaderEnd);
+		if (context.type == XMLScannerBase::HeaderStart)
+		{
+			//the elements selected inside of the XML header are not active anymore after the header
+			scopestk.push_back( context.scope);
+		}
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			// first step of open scope saves the context context on stack
-- 
2.43.0


From d03b7765e62b07c3fd9fbf055597b886c4b8ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 35/54] fix: copy encoding and error when copying an XML header
 parser

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From 66201f7182b95cb7ef528b98f55ac2389f609447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 36/54] fix: copy the key when assigning a state of a path
 select automaton

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 7d40193..0dd568f 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -236,6 +236,21 @@ public:
 			defineKey( orig.keysize, orig.key, orig.srckey);
 		}
 
+		/// \brief Assignment
+		/// \param [in] orig state to assign
+		State& operator=( const State& orig)
+		{
+			if (this != &orig)
+			{
+				core = orig.core;
+				keysize = orig.keysize;
+				next = orig.next;
+				link = orig.link;
+				defineKey( orig.keysize, orig.key, orig.srckey);
+			}
+			return *this;
+		}
+
 		///\brief Destructor
 		~State()
 		{
-- 
2.43.0


From 4cc9c82192eb14d046ccd071a1de3f13dc124946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 37/54] fix: take a character reference without digits as text

It was replaced by a null character.
---
 include/textwolf/xmlscanner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 4b85ac6..ac32ce9 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -659,9 +659,9 @@ private:
 			ch = m_src.ascii();
 			if (ch == ';')
 			{
-				if (tokstate.value > 0xFFFFFFFF)
+				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
 				{
-					fallbackEntity(); //... the ';' is not consumed yet and follows as ordinary character
+					fallbackEntity(); //... no digits or out of range, the ';' is not consumed yet and follows as ordinary character
 					return true;
 				}
 				push( (UChar)tokstate.value);
-- 
2.43.0


From 52e163487ee6ec5524913d3ceba49c5d284f1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 38/54] fix: print the null character in IsoLatin as such

---
 include/textwolf/charset_isolatin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 4ed09c4..68bff76 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -73,7 +73,7 @@ struct IsoLatin :public IsoLatinCodePage
 	void print( UChar chr, Buffer_& buf) const
 	{
 		char chr_ = invcode( chr);
-		if (chr_ == 0)
+		if (chr_ == 0 && chr != 0)
 		{
 			char tb[ 32];
 			char* cc = tb;
-- 
2.43.0


From 830bfc71bb538f08f8dfc7ba82b89f27b8dc0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 39/54] fix: refuse to open or leave a tag while an attribute
 has no value

printOpenTag after printAttribute wrote '<a x=><b'.
---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 237eb38..840c4ca 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -249,6 +249,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "printed attribute without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
-- 
2.43.0


From 993185ec84dbc95911f34e293f3956c77f130dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 40/54] fix: refuse to print a document type inside of an
 element or before the header

It was written into the open tag or in front of the header.
---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 840c4ca..9c05a40 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -204,6 +204,11 @@ public:
 	{
 		if (rootid)
 		{
+			if (m_state != Content || !m_tagstack.empty())
+			{
+				m_lasterror = "printing document type not between xml header and root element";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
-- 
2.43.0


From 8f96762edbcc0f5807dc44b7f6bd6a01d9b7f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 41/54] fix: print automaton states with an index range (did
 not compile)

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 0dd568f..e0430e3 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -352,7 +352,7 @@ public:
 			}
 			if (core.cnt_end > 0)
 			{
-				rt << '[' << core.cnt_start << ',' << rt << core.cnt_end << ']';
+				rt << '[' << core.cnt_start << ',' << core.cnt_end << ']';
 			}
 			if (core.typeidx)
 			{
-- 
2.43.0


From 2d116fdb9aa00f4c1ac086b78f30dcace32b61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 42/54] fix: name of the operation ThisAttributeValue was
 reported as AttributeValue

---
 include/textwolf/xmlpathautomaton.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index e0430e3..733cc98 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -158,11 +158,6 @@ public:
 			&&  this->hasReject( XMLScannerBase::Content))
 				return "Attribute";
 
-			if (this->hasMatch( XMLScannerBase::TagAttribValue)
-			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
-			&&  this->hasReject( XMLScannerBase::Content))
-				return "AttributeValue";
-
 			if (this->hasMatch( XMLScannerBase::TagAttribValue)
 			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
 			&&  this->hasReject( XMLScannerBase::TagAttribName)
@@ -171,6 +166,11 @@ public:
 			&&  this->hasReject( XMLScannerBase::OpenTag))
 				return "ThisAttributeValue";
 
+			if (this->hasMatch( XMLScannerBase::TagAttribValue)
+			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
+			&&  this->hasReject( XMLScannerBase::Content))
+				return "AttributeValue";
+
 			if (this->hasMatch( XMLScannerBase::Content))
 				return "Content";
 
-- 
2.43.0


From 4096e31cefa45663dfa55431396cebf5997ca7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 43/54] fix: index ranges in path expressions counted every
 element twice

---
 include/textwolf/xmlpathselect.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 216432e..f14d9ac 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -163,6 +163,8 @@ private:
 	/// \param [in] st state from which the expand was triggered
 	void produce( unsigned int tokenidx, const State& st)
 	{
+		if (st.next == -1) return; //... nothing to expand, elements of output states are counted when emitted
+
 		const Token& tk = tokens[ tokenidx];
 		if (tk.core.cnt_end == -1)
 		{
-- 
2.43.0


From ba641e8618c93ccdcea3a5aaa29f1d52a6c8b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 44/54] fix: identifiers with a dash were refused in path
 expressions

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 9c3b1a1..daf0c32 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -279,7 +279,7 @@ private:
 
 	static bool isIdentifierChar( SrcScanner& src)
 	{
-		if (src.control() == Undef || src.control() == Any)
+		if (src.control() == Undef || src.control() == Any || src.control() == Dash)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
 			return (*src > 127 || 0==std::strchr( opchr, *src));
-- 
2.43.0


From 28c1ace4a533760da7a423f5a3863cc48313f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 45/54] fix: a step for any name or value in a path expression
 took over the state of a step for the empty name or value

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 733cc98..d694b58 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -469,7 +469,7 @@ private:
 
 			for (int ee=stateidx; ee != -1; stateidx=ee,ee=states[ee].link)
 			{
-				if ((states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
+				if ((key != 0) && (states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
 				{
 					unsigned int ii;
 					for (ii=0; ii<keysize && states[ee].key[ii]==key[ii]; ii++);
-- 
2.43.0


From fec4b4b851110f50567c54e78f9cc42bf8e1a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 46/54] fix: namespaces in path expressions were searched byte
 by byte in multi byte character sets

---
 include/textwolf/xmlpathautomatonparse.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index daf0c32..ba8c412 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,16 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		SrcScanner nssrc( m_srccharset, CStringIterator( esrc, esrcsize));
+		while (*nssrc)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
+			bool isColon = (*nssrc == ':');
+			std::size_t xpos = nssrc.getPosition();
+			++nssrc;
+			if (isColon && *nssrc == ':')
 			{
 				return xpos+1;
 			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
 		}
 
 		// Parse the expression:
-- 
2.43.0


From ae91ada252241f78b28e39620a88cde8184cfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 47/54] fix: copying a state of an automaton leaked its key if
 memory ran out

---
 include/textwolf/xmlpathautomaton.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index d694b58..c1df4e4 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -233,7 +233,15 @@ public:
 		State( const State& orig)
 			:core(orig.core),keysize(orig.keysize),key(0),srckey(0),next(orig.next),link(orig.link)
 		{
-			defineKey( orig.keysize, orig.key, orig.srckey);
+			try
+			{
+				defineKey( orig.keysize, orig.key, orig.srckey);
+			}
+			catch (...)
+			{
+				if (key) delete [] key;
+				throw;
+			}
 		}
 
 		/// \brief Assignment
-- 
2.43.0


From ebae02349e8d7c1d0ccdcc35bd063d3920b81850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 48/54] fix: the process was terminated if memory ran out while
 an exception was created or copied

---
 include/textwolf/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 4ee5f25..ae87305 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -52,11 +52,11 @@ struct exception	:public std::runtime_error
 
 	/// \brief Constructor
 	/// \return exception object
-	exception (Cause p_cause) throw()
+	exception (Cause p_cause)
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-		:std::runtime_error("textwolf error in XML"), cause(orig.cause) {}
+		:std::runtime_error(orig), cause(orig.cause) {}
 	/// \brief Destructor
 	virtual ~exception() throw() {}
 
-- 
2.43.0


From bb3f5512a3d625eef18bebec011c932e9c0dc5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 49/54] fix: tag stack wrote beyond its memory after an
 allocation to enlarge it failed

---
 include/textwolf/xmltagstack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 345bb63..6bfa0db 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -69,12 +69,14 @@ public:
 		std::size_t ofs = nn + align + sizeof( std::size_t);
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
+			std::size_t newsize = m_size;
+			while (m_pos + ofs > newsize) newsize *= 2;
+			if (m_pos + ofs > newsize) throw std::bad_alloc();
 			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			char* xx = (char*)std::realloc( m_ptr, newsize);
 			if (!xx) throw std::bad_alloc();
 			m_ptr = xx;
+			m_size = newsize;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
 		m_pos += ofs;
-- 
2.43.0


From 7b2f7a89f892d23384b06fbf62cf23a63bb5a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 50/54] fix: automaton had a link to a state that does not
 exist after a failed allocation

---
 include/textwolf/xmlpathautomaton.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index c1df4e4..7026d32 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -490,9 +490,10 @@ private:
 				{
 					stateidx = states[ stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
-				states.push_back( state);
+				int linkidx = states.size();
+				states.push_back( state); //... may throw, therefore linked afterwards
+				states[ stateidx].link = linkidx;
+				stateidx = linkidx;
 			}
 			states.push_back( state);
 			unsigned int lastidx = states.size()-1;
@@ -535,10 +536,10 @@ private:
 				{
 					stateidx = states[stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
-				states.push_back( state);
-				
+				int linkidx = states.size();
+				states.push_back( state); //... may throw, therefore linked afterwards
+				states[ stateidx].link = linkidx;
+				stateidx = linkidx;
 			}
 			states[ stateidx].defineOutput( printOpMask, typeidx, follow, start, end);
 			return stateidx;
-- 
2.43.0


From 8439ec9211b7fa3fcfb3ae09dbf26d4da454351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 51/54] fix: automaton returned state -1 for a key of a step
 whose definition had failed for lack of memory

---
 include/textwolf/xmlpathautomaton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 7026d32..d5d3c0f 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -310,9 +310,9 @@ public:
 		///\param[in] p_follow true if the search reaches all included follow scopes of the definition scope
 		void defineNext( Operation op, unsigned int p_keysize, const char* p_key, const char* p_srckey, int p_next, bool p_follow=false)
 		{
-			core.mask.seekop( op);
-			defineKey( p_keysize, p_key, p_srckey);
 			next = p_next;
+			defineKey( p_keysize, p_key, p_srckey); //... may throw
+			core.mask.seekop( op);
 			core.follow = p_follow;
 		}
 
-- 
2.43.0


From c7d037c28eb331bba9500551ef40eb26fa2b3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 52/54] fix: path selector referred to a token that does not
 exist after a failed allocation

---
 include/textwolf/xmlpathselect.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index f14d9ac..760dd36 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -103,9 +103,12 @@ private:
 				if (st.core.follow)
 				{
 					context.scope.followMask.join( st.core.mask);
-					follows.push_back( tokens.size());
 				}
 				tokens.push_back( Token( st, stateidx));
+				if (st.core.follow)
+				{
+					follows.push_back( tokens.size()-1);
+				}
 			}
 			stateidx = st.link;
 		}
-- 
2.43.0


From a7dac0f80629d11a0b16ce83f31edd5a84e3515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 53/54] fix: name the reason of refused attribute and close
 calls of the printer as last error

---
 include/textwolf/xmlprinter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 9c05a40..783e7a9 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -296,6 +296,7 @@ public:
 			m_state = TagAttribute;
 			return true;
 		}
+		m_lasterror = "printed attribute outside of a tag";
 		return false;
 	}
 
@@ -329,6 +330,7 @@ public:
 
 		if (!m_tagstack.top( cltag, cltagsize) || !cltagsize)
 		{
+			m_lasterror = "printed close of a tag without open tag";
 			return false;
 		}
 		if (m_state == TagElement)
@@ -339,6 +341,7 @@ public:
 		}
 		else if (m_state != Content)
 		{
+			m_lasterror = "printed attribute without value";
 			return false;
 		}
 		else
-- 
2.43.0


From c5808c582033506e5d9cf78b6aeaf4b132647f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 54/54] fix: largest index in a path element range caused
 signed integer overflow

---
 include/textwolf/xmlpathautomaton.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index d5d3c0f..460cdda 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -674,6 +674,15 @@ public:
 			return doRange( p_start, std::numeric_limits<int>::max());
 		}
 
+		///\brief Get the upper bound of a range (not belonging to it anymore) from the index of the last element (without integer overflow for the biggest one)
+		///\param [in] idx index of the last element of the range or negative if undefined (unlimited)
+		///\return the upper bound or -1 if undefined (unlimited)
+		static int upperBound( int idx)
+		{
+			if (idx < 0) return -1;
+			return (idx < std::numeric_limits<int>::max())?(idx+1):idx;
+		}
+
 		///\brief Define the output of the current element
 		///\param [in] typeidx type of the element produced
 		///\return *this
@@ -739,7 +748,7 @@ public:
 		///\brief Define maximum element index to push
 		///\param [in] idx maximum element index
 		///\return *this
-		PathElement& TO(int idx)							{return doCount((idx>=0)?(idx+1):-1);}
+		PathElement& TO(int idx)							{return doCount(upperBound(idx));}
 		///\brief Define minimum element index to push
 		///\param [in] idx minimum element index
 		///\return *this
@@ -748,11 +757,11 @@ public:
 		///\param [in] idx1 minimum element index
 		///\param [in] idx2 maximum element index
 		///\return *this
-		PathElement& RANGE(int idx1, int idx2)						{return doRange(idx1,(idx2>=0)?(idx2+1):-1); return *this;}
+		PathElement& RANGE(int idx1, int idx2)						{return doRange(idx1,upperBound(idx2)); return *this;}
 		///\brief Define index of the element index to push
 		///\param [in] idx element index
 		///\return *this
-		PathElement& INDEX(int idx)							{return doRange(idx,idx+1); return *this;}
+		PathElement& INDEX(int idx)							{return doRange(idx,(idx<std::numeric_limits<int>::max())?(idx+1):idx); return *this;}
 
 		///\brief Define element type to push
 		///\param [in] type element type
-- 
2.43.0

