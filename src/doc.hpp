// Document generator that knows what it wrote, and a reference scanner for arbitrary (also malformed) input.
// Both work on Unicode code points and are written independently of the tables of the library.
#pragma once
#include "vf.hpp"
#include "enc.hpp"
#include <algorithm>
namespace doc {
typedef std::u32string U;
using vf::Rng;
// element types and error codes as documented in the interface of the scanner
enum Type {None,ErrorOccurred,HeaderStart,HeaderAttribName,HeaderAttribValue,HeaderEnd,DocAttribValue,DocAttribEnd,TagAttribName,TagAttribValue,OpenTag,CloseTag,CloseTagIm,Content,Exit};
inline const char* typeName( int t) {static const char* n[]={"None","ErrorOccurred","HeaderStart","HeaderAttribName","HeaderAttribValue","HeaderEnd","DocAttribValue","DocAttribEnd","TagAttribName","TagAttribValue","OpenTag","CloseTag","CloseTagIm","Content","Exit"}; return (t>=0&&t<=Exit)?n[t]:"?";}
enum Err {Ok,ErrIllegalDocumentAttributeDef,ErrExpectedOpenTag,ErrExpectedXMLTag,ErrUnexpectedEndOfText,ErrSyntaxToken,ErrStringNotTerminated,ErrUndefinedCharacterEntity,ErrExpectedTagEnd,ErrExpectedEqual,ErrExpectedTagAttribute,ErrExpectedCDATATag,ErrInternal,ErrUnexpectedEndOfInput,ErrExpectedEndOfLine,ErrExpectedDash2};
struct Ev
{
	int type; U val; size_t start,end;	// [start,end): code point range of the element text in the source
	int err;
	bool haspos;
	Ev( int t, const U& v, size_t s, size_t e) :type(t),val(v),start(s),end(e),err(0),haspos(true) {}
};
typedef std::vector<Ev> Evs;
typedef std::vector<std::pair<std::string,uint32_t> > Ents;

// deviations of the tree under test listed as known findings; found by probes, see modes.hpp
struct Modes
{
	bool cdataDropped, wsAfterCommentDropped, dtdBracket, piStart;
	Modes() :cdataDropped(true),wsAfterCommentDropped(true),dtdBracket(true),piStart(true) {}
};
inline Modes& modes() {static Modes m; return m;}

inline bool isWs( char32_t c) {return c==' '||c=='\t'||c=='\r'||c=='\n';}

struct Opt
{
	std::function<bool(char32_t)> ok;	// repertoire
	bool header, doctype, comments, pis, cdata, refs, ctrl, unquoted, subset, wellformed, eols;
	const Ents* ents;
	unsigned size;				// rough number of items
	unsigned maxdepth;
	unsigned bigtext;			// length of one big text, 0 none
	unsigned deep;				// open this many tags additionally
	unsigned maxname, maxval;
	std::vector<U> names;			// vocabulary, if empty random names
	std::vector<U> attnames, values;
	Opt() :header(true),doctype(true),comments(true),pis(true),cdata(true),refs(true),ctrl(false),unquoted(false),subset(true),wellformed(true),eols(true),ents(0),size(12),maxdepth(6),bigtext(0),deep(0),maxname(9),maxval(14) {}
};
inline Ents defaultEnts() {Ents e; e.push_back({"eacute",0xE9}); e.push_back({"x",'X'}); e.push_back({"euro",0x20AC}); e.push_back({"clef",0x1D11E}); e.push_back({"abcdefghijklmno",0x3B1}); e.push_back({"ltx",'<'}); e.push_back({"am",'@'}); e.push_back({"Q",'"'}); return e;}

struct Gen
{
	Rng& r; Opt o;
	U src; Evs ev;
	// open text
	bool skipws;				// white spaces before text are skipped at this place
	bool inText; U tval; size_t tstart;
	bool lastCR;
	std::vector<U> stack;
	std::vector<size_t> cutpoints;		// interesting source positions
	std::vector<std::pair<size_t,size_t> > markup;	// ranges of source belonging to one markup item, an end inside is an error
	uint64_t features; int64_t budget;

	Gen( Rng& r_, const Opt& o_) :r(r_),o(o_),skipws(true),inText(false),tstart(0),lastCR(false),features(0),budget(4*(int64_t)o_.bigtext) {}
	// lengths around the limits of small integer types and buffers
	static unsigned bigLen( Rng& r) {switch (r.below(6)) {case 0: return 65530+r.below(14); case 1: return 65000+r.below(80000); case 2: return 131060+r.below(30); case 3: return 250+r.below(12); default: return 500+r.below(40000);}}
	// length of some part: below n, sometimes a big one if the document has such
	unsigned len( unsigned n)
	{
		if (!o.bigtext || budget<=0 || !r.chance(1,6)) return r.below(n);
		unsigned l=r.chance(1,2)?o.bigtext:r.below( o.bigtext); budget-=(int64_t)l+1; feature(17); return l;
	}
	bool okc( char32_t c) {return c<128 || !o.ok || o.ok(c);}
	void feature( int n) {features |= (1ull<<n);}

	char32_t nonascii()
	{
		for (int k=0;k<40;++k)
		{
			char32_t c;
			switch (r.below(12))
			{
				case 0: case 1: case 2: c=0xA0+r.below(0x60); break;
				case 3: c=0x100+r.below(0x250); break;
				case 4: c=0x370+r.below(0x1D0); break;
				case 5: c=0x800+r.below(0xD000-0x800); break;
				case 6: c=0xE000+r.below(0x1FFE); break;
				case 7: c=0x10000+r.below(0x100000); break;
				case 8: {static const char32_t s[]={0x7F+1,0x80,0x7FF,0x800,0xFFFD,0x10000,0x10FFFF,0xD7FF,0xE000,0x85,0x2028,0xFEFF,0x0A0A,0x0D0D,0x3C3C,0x2600,0x263C,0x0A00,0x0D00,0x3C00,0x2C2D,0x100A,0x200D,0x10D}; c=r.pickc( std::u32string(s,sizeof(s)/sizeof(*s))); break;}
				case 9: c=0x20AC; break;
				case 10: c=0x1E00+r.below(0x100); break;
				default: c=0x80+r.below(0x20); break;
			}
			if (c>=0xD800&&c<=0xDFFF) continue;
			if (okc(c)) return c;
		}
		return 'z';
	}
	char32_t nameChar( bool first)
	{
		static const std::u32string f=U"abcdeXYZ_:", n=U"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_:";
		if (r.chance(1,6)) return nonascii();
		return first?r.pickc(f):r.pickc(n);
	}
	U name()
	{
		if (!o.names.empty()) return r.pick( o.names);
		if (r.chance(1,24))
		{
			// names with a meaning somewhere in a document
			static const char* s[]={"xml","xmlx","xml-stylesheet","XML","xm","xmlns","xmlns:a","DOCTYPE","CDATA","ELEMENT","PUBLIC","SYSTEM","encoding","version","standalone","amp","lt","quot","x","x41","a--","a-"};
			U u; for (const char* p=s[ r.below( sizeof(s)/sizeof(*s))]; *p; ++p) u+=(char32_t)*p;
			return u;
		}
		U u; unsigned n = r.chance(1,40)?20+r.below(300):1+len(o.maxname);
		for (unsigned i=0;i<n;++i) u+=nameChar(i==0);
		return u;
	}
	U attname() {if (!o.attnames.empty()) return r.pick( o.attnames); return name();}
	U ws( unsigned min=1)
	{
		static const std::u32string w=U"    \t\n\r"; U u; unsigned n=min; while (r.chance(1,4)) ++n; if (o.bigtext) n+=len(1);
		for (unsigned i=0;i<n;++i) u+=o.eols?r.pickc(w):U' ';
		return u;
	}
	void put( const U& u) {src+=u;}
	void put( const char* s) {while (*s) src+=(char32_t)(unsigned char)*s++;}
	void cut() {cutpoints.push_back( src.size());}

	// one unit of text (character data or attribute value), val gets the reported characters; quote: 0 for content, else the quote character
	void unit( char32_t quote, U& val)
	{
		switch (r.below(24))
		{
			case 0: case 1: case 2: {char32_t c=nonascii(); src+=c; val+=c; lastCR=false; break;}
			case 3:
				if (!o.eols) {src+=U' '; val+=U' '; lastCR=false; break;}
				switch (r.below(4))
				{
					case 0: cut(); put( U"\r\n"); cutpoints.push_back( src.size()-1); val+=U'\n'; lastCR=false; feature(0); break;
					case 1: put( U"\r"); val+=U'\n'; lastCR=true; feature(1); break;
					case 2: if (!lastCR) {put( U"\n"); val+=U'\n'; feature(2);} break;
					default: put( U"\t"); val+=U'\t'; lastCR=false;
				}
				break;
			case 4: src+=U' '; val+=U' '; lastCR=false; break;
			case 5: case 6:
				if (!o.refs) {src+=U'r'; val+=U'r'; lastCR=false; break;}
				reference( val); break;
			case 7:
				if (!o.ctrl) {src+=U'q'; val+=U'q';}
				else {char32_t c=1+r.below(31); if (c=='\r'||c=='\n') c=7; src+=c; val+=c; feature(3);}
				lastCR=false; break;
			case 8: case 9: {
				static const std::u32string p=U"=>/-!?[]'\";#%()*+,.:@^_`{|}~$\\"; char32_t c=r.pickc(p);
				if (c==quote) c='=';
				if (!quote && c=='>') c='/';
				src+=c; val+=c; lastCR=false; break;}
			default: {
				static const std::u32string a=U"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
				char32_t c=r.pickc(a); src+=c; val+=c; lastCR=false;}
		}
	}
	void reference( U& val)
	{
		cut(); size_t b=src.size(); lastCR=false;
		static const char* nm[]={"&lt;","&gt;","&amp;","&apos;","&quot;","&nbsp;"}; static const char32_t nv[]={'<','>','&','\'','"',' '};
		unsigned k=r.below(10);
		if (k<5) {unsigned i=r.below(6); put( nm[i]); val+=nv[i]; feature(4);}
		else if (k<6 && o.ents && !o.ents->empty()) {const auto& e=r.pick(*o.ents); put( "&"); put( e.first.c_str()); put( ";"); val+=(char32_t)e.second; feature(5);}
		else
		{
			char32_t c; static const char32_t sp[]={9,10,13,32,60,38,0x7F,0x80,0xFF,0x100,0x7FF,0x800,0xFFFD,0x10000,0x10FFFF,34,39,1,31};
			if (r.chance(1,3)) c=sp[r.below(sizeof(sp)/sizeof(*sp))]; else {c = r.chance(1,2)?r.below(0x250)+1:r.below(0x10FFFF)+1; if (c>=0xD800&&c<=0xDFFF) c=0x263A;}
			char t[60]; std::string z( r.chance(1,4)?r.below(6):0, '0'); const char* zs=z.c_str();
			unsigned f=r.below(3);
			if (f==0) snprintf( t, sizeof(t), "&#%s%u;", zs, (unsigned)c); else if (f==1) snprintf( t, sizeof(t), "&#x%s%x;", zs, (unsigned)c); else snprintf( t, sizeof(t), "&#x%s%X;", zs, (unsigned)c);
			put( t); val+=c; feature(6);
		}
		for (size_t i=b+1;i<src.size();++i) if (r.chance(1,3)) cutpoints.push_back(i);
	}

	void startText() {if (!inText) {inText=true; tval.clear(); tstart=src.size(); lastCR=false;}}
	void flush()
	{
		if (!inText) return;
		inText=false;
		if (src.size()==tstart) return;
		if (skipws)
		{
			// raw white space (and control characters) before the text is not part of it
			size_t i=tstart, k=0;
			while (i<src.size() && src[i]<=32 && src[i]!=5 && src[i]!=0)
			{
				if (src[i]=='\r') {++k; if (i+1<src.size() && src[i+1]=='\n') ++i;} else ++k;
				++i;
			}
			tstart=i; tval.erase( 0, k);
			if (tstart==src.size()) return;
		}
		ev.push_back( Ev( Content, tval, tstart, src.size()));
	}
	void text( unsigned n)
	{
		startText();
		if (n && r.chance(1,4)) {size_t b=src.size(); U w=ws(); 
			for (char32_t c:w) {if (c=='\n' && lastCR) {src+=c; lastCR=false; continue;} src+=c; if (c=='\r') {tval+=U'\n'; lastCR=true;} else {tval+=c; lastCR=false;}} (void)b;}
		for (unsigned i=0;i<n;++i) unit( 0, tval);
	}
	void bigText( unsigned n)
	{
		startText(); char32_t k='a';
		for (unsigned i=0;i<n;++i) {if (r.chance(1,32)) unit( 0, tval); else {src+=k; tval+=k; k=k=='z'?'a':k+1; lastCR=false;}}
		feature(7);
	}
	void markBegin() {flush(); cut(); markup.push_back( std::make_pair( src.size(), src.size()));}
	void markEnd() {markup.back().second=src.size(); cut();}
	void item( int type, const U& u) {size_t b=src.size(); src+=u; ev.push_back( Ev( type, u, b, src.size()));}
	void quoted( int type)
	{
		char32_t q=r.chance(1,2)?U'"':U'\''; src+=q; size_t b=src.size(); U val; lastCR=false;
		if (!o.values.empty() && r.chance(3,4)) {const U& v=r.pick( o.values); for (char32_t c:v) {src+=c; val+=c;}}
		else {unsigned n=r.chance(1,6)?0:1+len(o.maxval); for (unsigned i=0;i<n;++i) unit( q, val);}
		ev.push_back( Ev( type, val, b, src.size())); src+=q; lastCR=false;
	}
	void attributes( int nt, int vt, unsigned n)
	{
		for (unsigned i=0;i<n;++i)
		{
			put( ws(1)); item( nt, nt==HeaderAttribName && r.chance(1,2)?U(U"encoding"):attname());
			if (r.chance(1,5)) put( ws(1));
			put( "=");
			if (r.chance(1,5)) put( ws(1));
			if (o.unquoted && r.chance(1,4)) {item( vt, name()); feature(8);}
			else quoted( vt);
		}
	}
	void header()
	{
		markBegin(); size_t b=src.size(); put( "<?xml");
		{Ev e( HeaderStart, U"?xml", b, src.size()); e.haspos=false; ev.push_back( e);}
		attributes( HeaderAttribName, HeaderAttribValue, r.below(4));
		if (r.chance(1,3)) put( ws(1));
		put( "?>"); ev.push_back( Ev( HeaderEnd, U(), src.size(), src.size())); 
		markEnd(); skipws=true; feature(9);
	}
	void rawText( unsigned n, const std::function<void()>& fix)
	{
		// text inside of skipped items, may contain everything
		for (unsigned i=0;i<n;++i)
		{
			static const std::u32string p=U"<>&/-!?'\"[]= abcxyz\r\n\t;#";
			if (r.chance(1,6)) src+=nonascii(); else src+=r.pickc(p);
			fix();
		}
	}
	void comment()
	{
		markBegin(); put( "<!--"); size_t b=src.size();
		rawText( len(20), [&]() {if (src.size()>b && src.back()=='-') {if (src.size()-b>1 && src[src.size()-2]=='-') src.back()='x';}});
		if (src.size()>b && src.back()=='-') src.back()='x';
		put( "-->"); markEnd(); skipws=modes().wsAfterCommentDropped; feature(10);
	}
	void pi()
	{
		markBegin(); put( "<?"); U n=name(); if (n==U"xml") n=U"xmlx"; put( n); if (r.chance(2,3)) {put( ws(1)); size_t b=src.size();
			rawText( len(16), [&]() {if (src.size()>b && src.back()=='>' && src[src.size()-2]=='?') src.back()='y';});}
		put( "?>"); markEnd(); skipws=false; feature(11);
	}
	void cdata()
	{
		markBegin(); put( "<![CDATA["); size_t b=src.size();
		rawText( len(16), [&]() {if (src.back()=='>' && src.size()-b>=3 && src[src.size()-2]==']' && src[src.size()-3]==']') src.back()='x';});
		put( "]]>"); markEnd(); skipws=false; feature(12);
	}
	void literal()
	{
		char32_t q=r.chance(1,2)?U'"':U'\''; src+=q; size_t b=src.size(); U v; unsigned n=len(12);
		for (unsigned i=0;i<n;++i) {static const std::u32string p=U"abcXYZ:/.-+%0123 "; char32_t c=r.chance(1,6)?nonascii():r.pickc(p); src+=c; v+=c;}
		ev.push_back( Ev( DocAttribValue, v, b, src.size())); src+=q;
	}
	void doctype()
	{
		markBegin(); put( "<!"); item( DocAttribValue, U"DOCTYPE"); put( ws(1)); item( DocAttribValue, name());
		switch (r.below(4))
		{
			case 0: put( ws(1)); item( DocAttribValue, U"SYSTEM"); put( ws(1)); literal(); break;
			case 1: put( ws(1)); item( DocAttribValue, U"PUBLIC"); put( ws(1)); literal(); put( ws(1)); literal(); break;
			default: break;
		}
		if (r.chance(1,2)) put( ws(1));
		if (o.subset && r.chance(1,2))
		{
			put( "["); feature(14); unsigned n=(o.bigtext && r.chance(1,4))?r.below(300):r.below(4);
			for (unsigned i=0;i<n;++i)
			{
				switch (r.below(5))
				{
					case 0: put( "<!ELEMENT "); put( name()); put( " (#PCDATA)>"); break;
					case 1: put( "<!ENTITY "); put( name()); put( " \"<&#38;x>'[\">"); break;
					case 2: put( "<!-- [ ' \" < > -->"); break;
					case 3: put( "<?pi [ ?>"); break;
					default: put( ws(1)); put( "<!ATTLIST a b CDATA #IMPLIED>");
				}
				put( ws(0));
			}
			put( "]"); if (r.chance(1,2)) put( ws(1));
		}
		put( ">"); ev.push_back( Ev( DocAttribEnd, U(), src.size(), src.size())); markEnd(); skipws=true; feature(13);
	}
	void openTag( bool im)
	{
		markBegin(); put( "<"); U n=name(); item( OpenTag, n); attributes( TagAttribName, TagAttribValue, r.chance(1,2)?0:(o.bigtext && r.chance(1,16))?r.below(400):r.below(4));
		if (r.chance(1,5)) put( ws(1));
		if (im) {put( "/"); ev.push_back( Ev( CloseTagIm, U(), src.size(), src.size())); put( ">"); feature(15);}
		else {put( ">"); stack.push_back( n);}
		markEnd(); skipws=false;
	}
	void closeTag()
	{
		markBegin(); put( "</"); item( CloseTag, stack.back()); stack.pop_back(); if (r.chance(1,5)) put( ws(1)); put( ">"); markEnd(); skipws=false;
	}
	void misc( unsigned n)
	{
		for (unsigned i=0;i<n;++i)
		{
			switch (r.below(3))
			{
				case 0: {startText(); U w=ws(1); for (char32_t c:w) {bool drop=c=='\n'&&lastCR; src+=c; if (!drop) tval+=(c=='\r')?U'\n':c; lastCR=c=='\r';} break;}
				case 1: if (o.comments) comment(); break;
				default: if (o.pis && (!modes().piStart || !src.empty())) { // a PI at the start of a document: known finding
						bool empty=true; for (char32_t c:src) if (!isWs(c)) empty=false;
						if (!empty || !modes().piStart) pi();} break;
			}
		}
	}
	void body( unsigned n)
	{
		for (unsigned i=0;i<n;++i)
		{
			switch (r.below(14))
			{
				case 0: case 1: case 2: if (stack.size()<o.maxdepth) openTag(false); else openTag(true); break;
				case 3: case 4: openTag(true); break;
				case 5: case 6: case 7: if (stack.size()>1) closeTag(); else text( 1+r.below(5)); break;
				case 8: if (o.comments) comment(); break;
				case 9: if (o.pis) pi(); break;
				case 10: if (o.cdata && modes().cdataDropped) cdata(); break;
				default: text( 1+r.below(10));
			}
		}
	}
	void document()
	{
		bool h=o.header && r.chance(2,3);
		if (h) {header(); skipws=true;}
		misc( r.below(3));
		if (o.doctype && r.chance(1,3)) {doctype(); misc( r.below(3));}
		openTag( false);
		for (unsigned i=0;i<o.deep;++i) {openTag( false); if (r.chance(1,4)) text( r.below(3));}
		if (o.deep) feature(16);
		body( r.below( o.size+1));
		if (o.bigtext) {bigText( o.bigtext); body( r.below( o.size+1));}
		while (!stack.empty()) {closeTag(); if (!stack.empty() && r.chance(1,3)) text( r.below(4));}
		misc( r.below(3));
		flush();
		ev.push_back( Ev( Exit, U(), src.size(), src.size()));
	}
};

// Reference scanner: arbitrary code points in, the list of elements ending with Exit or ErrorOccurred out
struct Ref
{
	const U& s; size_t i; Evs& ev; const Ents* ents; bool stop;
	Ref( const U& s_, Evs& e_, const Ents* m) :s(s_),i(0),ev(e_),ents(m),stop(false) {}
	char32_t c() const {return i<s.size()?s[i]:0;}
	char32_t at( size_t k) const {return k<s.size()?s[k]:0;}
	static bool ws( char32_t x) {return x>0 && x<=32 && x!=5;}
	static bool special( char32_t x) {return x=='&'||x=='<'||x=='='||x=='>'||x=='/'||x=='-'||x=='!'||x=='?'||x=='\''||x=='"'||x=='['||x==']';}
	static bool any( char32_t x) {return x>32 && x<128 && !special(x);}
	static bool undef( char32_t x) {return x>=128||x==5;}
	static bool ident( char32_t x) {return undef(x)||any(x)||x=='-';}
	static bool content( char32_t x) {return x!=0 && x!='<' && x!='&';}
	static bool sq( char32_t x) {return content(x) && x!='\'';}
	static bool dq( char32_t x) {return content(x) && x!='"';}
	bool err( int code) {Ev e( ErrorOccurred, U(), i, i); e.err=code; e.haspos=false; ev.push_back(e); stop=true; return false;}
	bool miss( int code) {return err( code);}
	void emit( int t, const U& v, size_t b, size_t e) {ev.push_back( Ev( t, v, b, e));}
	void skipws() {while (ws(c())) ++i;}
	// token with references resolved, false on error
	bool token( bool (*in)(char32_t), U& v, size_t& b)
	{
		b=i; v.clear(); bool cr=false;
		for (;;)
		{
			char32_t x=c();
			if (in(x))
			{
				if (x=='\r') {v+=U'\n'; cr=true;} else if (x=='\n') {if (!cr) v+=x; cr=false;} else {v+=x; cr=false;}
				++i;
			}
			else if (x=='&') {cr=false; if (!amp( v)) return false;}
			else return true;
		}
	}
	static int hex( char32_t x) {if (x>='0'&&x<='9') return x-'0'; if (x>='a'&&x<='f') return x-'a'+10; if (x>='A'&&x<='F') return x-'A'+10; return 99;}
	bool amp( U& v)
	{
		size_t k=i+1;
		if (at(k)=='#')
		{
			++k; int base=10; if (at(k)=='x') {base=16;++k;}
			size_t d=k; uint64_t val=0; bool big=false;
			while (k-d<16 && hex(at(k))<base) {val=val*base+hex(at(k)); if (val>0xFFFFFFFFull) big=true; ++k;}
			if (k-d<16 && k>d && at(k)==';' && !big) {v+=(char32_t)val; i=k+1; return true;}
			v+=s.substr( i, k-i); i=k; return true;
		}
		while (k-i-1<15 && at(k)!=';' && any(at(k))) ++k;
		if (at(k)==';')
		{
			std::string n; for (size_t j=i+1;j<k;++j) n+=(char)s[j];
			static const char* nm[]={"lt","gt","amp","apos","quot","nbsp"}; static const char32_t nv[]={'<','>','&','\'','"',' '};
			for (int j=0;j<6;++j) if (n==nm[j]) {v+=nv[j]; i=k+1; return true;}
			if (ents) for (auto& e:*ents) if (e.first==n) {v+=(char32_t)e.second; i=k+1; return true;}
			return err( ErrUndefinedCharacterEntity);
		}
		v+=s.substr( i, k-i); i=k; return true;
	}
	bool expect( const char* str) {while (*str) {if (c()!=(char32_t)*str) return err( c()==0?ErrUnexpectedEndOfText:ErrSyntaxToken); ++i; ++str;} return true;}
	bool quotedOrIdent( int type, int missTermWs)	// attribute value; leaves i behind the value and its closing quote
	{
		U v; size_t b; skipws();
		if (c()=='\'' || c()=='"')
		{
			char32_t q=c(); ++i; if (!token( q=='"'?dq:sq, v, b)) return false;
			if (c()!=q) return err( ErrStringNotTerminated);
			emit( type, v, b, i); ++i;
			return true;
		}
		if (!token( ident, v, b)) return false;
		char32_t x=c();
		bool okend = ws(x) || (type==HeaderAttribValue? x=='?' : (x=='/'||x=='>'));
		if (!okend) return err( missTermWs);
		emit( type, v, b, i);
		return true;
	}
	void run()
	{
		skipws();
		if (c()==0) {emit( Exit, U(), i, i); return;}
		if (c()!='<') {err( ErrExpectedOpenTag); return;}
		++i; skipws();
		if (c()=='?') {++i; if (!header()) return; skipws();}
		else if (c()=='!') {++i; int k=excl(); if (!k) return; if (k==1 || (k==3 && modes().wsAfterCommentDropped)) skipws();}
		else if (!tag()) return;
		U v; size_t b;
		for (;;)
		{
			if (c()==0) {emit( Exit, U(), i, i); return;}
			if (c()!='<')
			{
				if (!token( content, v, b)) return;
				emit( Content, v, b, i);
				continue;
			}
			++i; skipws();
			char32_t x=c();
			if (x=='?') {++i; if (!pi()) return;}
			else if (x=='!') {++i; int k=excl(); if (!k) return; if (k==1 || (k==3 && modes().wsAfterCommentDropped)) skipws();}
			else if (x=='/') {++i; if (!close()) return;}
			else if (!tag()) return;
		}
	}
	bool pi()
	{
		for (;;)
		{
			while (c()!=0 && c()!='?') ++i;
			if (c()==0) return err( ErrUnexpectedEndOfText);
			while (c()=='?') ++i;
			if (c()=='>') {++i; return true;}
			if (c()==0) return err( ErrUnexpectedEndOfText);
			++i;
		}
	}
	bool close()
	{
		U v; size_t b; if (!token( ident, v, b)) return false;
		if (!ws(c()) && c()!='>') return err( ErrExpectedTagEnd);
		emit( CloseTag, v, b, i); skipws();
		if (c()!='>') return err( ErrExpectedTagEnd);
		++i; return true;
	}
	bool tag()
	{
		U v; size_t b; if (!token( ident, v, b)) return false;
		if (!ws(c()) && c()!='/' && c()!='>') return err( ErrExpectedTagAttribute);
		emit( OpenTag, v, b, i);
		for (;;)
		{
			bool hadws=ws(c()); skipws();
			if (c()=='>') {++i; return true;}
			if (c()=='/')
			{
				++i;
				for (;;) // "/" has to be followed by ">", the element is reported again for every white space in between
				{
					if (c()=='>') {emit( CloseTagIm, U(), i, i); ++i; return true;}
					if (ws(c())) {emit( CloseTagIm, U(), i, i); ++i; continue;}
					return err( ErrExpectedTagEnd);
				}
			}
			if (!hadws) return err( ErrExpectedTagAttribute);
			if (!token( ident, v, b)) return false;
			if (!ws(c()) && c()!='=') return err( ErrExpectedEqual);
			emit( TagAttribName, v, b, i); skipws();
			if (c()!='=') return err( ErrExpectedEqual);
			++i;
			size_t n=ev.size();
			if (!quotedOrIdent( TagAttribValue, ErrExpectedTagAttribute)) return false;
			(void)n;
		}
	}
	bool header()
	{
		size_t b0=i-1; if (!expect( "xml")) return false;
		if (!ws(c()) && c()!='?') return err( ErrExpectedXMLTag);
		{Ev e( HeaderStart, U"?xml", b0, i); e.haspos=false; ev.push_back(e);}
		U v; size_t b;
		for (;;)
		{
			bool hadws=ws(c()); skipws();
			if (c()=='?')
			{
				++i; skipws(); if (c()!='>') return err( ErrExpectedTagEnd);
				++i; emit( HeaderEnd, U(), i, i); return true;
			}
			if (!hadws) return err( ErrExpectedTagAttribute);
			if (!token( ident, v, b)) return false;
			if (!ws(c()) && c()!='=') return err( ErrExpectedEqual);
			emit( HeaderAttribName, v, b, i); skipws();
			if (c()!='=') return err( ErrExpectedEqual);
			++i;
			if (!quotedOrIdent( HeaderAttribValue, ErrExpectedTagAttribute)) return false;
		}
	}
	int excl()	// 0 error, 1 declaration (white space skipped behind), 2 CDATA, 3 comment
	{
		if (c()=='[')
		{
			++i; if (!expect( "CDATA")) return 0;
			if (c()!='[') {err( ErrExpectedCDATATag); return 0;}
			++i; unsigned n=0;
			for (;;)
			{
				char32_t x=c(); if (x==0) {err( ErrUnexpectedEndOfText); return 0;}
				++i; if (x==']') ++n; else if (x=='>' && n>=2) return 2; else n=0;
			}
		}
		if (c()=='-')
		{
			++i; if (c()!='-') {err( ErrExpectedDash2); return 0;}
			++i; unsigned n=0;
			for (;;)
			{
				// (runs of more than two dashes are not well-formed: only an even number of dashes starts the end marker)
				char32_t x=c(); if (x==0) {err( ErrUnexpectedEndOfText); return 0;}
				++i;
				if (x=='-') {++n; continue;}
				if (x=='>' && n>=2 && n%2==0) return 3;
				n=0;
			}
		}
		U v; size_t b;
		for (;;)
		{
			skipws(); char32_t x=c();
			if (x=='>') {++i; emit( DocAttribEnd, U(), i, i); return 1;}
			if (x=='"' || x=='\'')
			{
				++i; if (!token( x=='"'?dq:sq, v, b)) return 0;
				if (c()!=x) {err( ErrStringNotTerminated); return 0;}
				emit( DocAttribValue, v, b, i); ++i; continue;
			}
			if (x=='[')
			{
				++i; while (c()!=0 && c()!=']') ++i;
				if (c()==0) {err( ErrUnexpectedEndOfText); return 0;}
				++i; continue;
			}
			if (!token( ident, v, b)) return 0;
			if (!ws(c()) && c()!='>' && c()!='[') {err( ErrIllegalDocumentAttributeDef); return 0;}
			emit( DocAttribValue, v, b, i);
		}
	}
};
inline Evs refscan( const U& s, const Ents* ents=0) {Evs e; Ref r( s, e, ents); r.run(); return e;}

inline std::string show( const Evs& e, size_t from=0, size_t n=20)
{
	std::string r; for (size_t i=from;i<e.size() && i<from+n;++i) {r+=typeName( e[i].type); if (e[i].type==ErrorOccurred) r+="("+vf::num( e[i].err)+")"; r+="'"+vf::show( enc::u8( e[i].val), 80)+"'@"+vf::num( e[i].start)+" ";}
	return r;
}
}
