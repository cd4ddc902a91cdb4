// C18: the header parser finds the declared encoding in every byte layout
#include "vf.hpp"
#include "enc.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include <memory>
namespace vf {
const Check check={"C18",300000,60000000,"distinct (bytes, pieces) pairs for which the parser reported completion, an error or an exception",0,30};
using textwolf::XmlHdrParser;
void init() {}
// reference: result for the characters (without null bytes) available
struct Ref
{
	enum St {More,Done,Error}; int st; std::string encoding; size_t at;	// at: characters read
	explicit Ref( const std::string& t) :st(More),at(0) {parse( t); }
	static bool sp( unsigned char c) {return c<=32;}
	static bool al( unsigned char c) {return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_';}
	void parse( const std::string& t)
	{
		size_t i=0, n=t.size(); auto end=[&]( int s) {st=s; at=s==More?n:i+1;};
		while (i<n&&sp( t[i])) ++i; if (i==n) return end( More); if (t[i]!='<') return end( Error); ++i;
		while (i<n&&sp( t[i])) ++i; if (i==n) return end( More); if (al( t[i])) return end( Done); if (t[i]!='?') return end( Error); ++i;
		size_t s=i; while (i<n&&al( t[i])) ++i; if (i==n) return end( More); if (!(sp( t[i])||t[i]=='?')||t.substr( s, i-s)!="xml") return end( Error); if (t[i]=='?') return end( Done);
		for (;;)
		{
			while (i<n&&sp( t[i])) ++i; if (i==n) return end( More); if (t[i]=='?') return end( Done); if (!al( t[i])) return end( Error);
			s=i; while (i<n&&al( t[i])) ++i; if (i==n) return end( More); if (!sp( t[i])&&t[i]!='=') return end( Error);
			std::string name=t.substr( s, i-s); if (name!="encoding"&&name!="version"&&name!="standalone") return end( Error);
			while (i<n&&sp( t[i])) ++i; if (i==n) return end( More); if (t[i]!='=') return end( Error); ++i;
			while (i<n&&sp( t[i])) ++i; if (i==n) return end( More); if (t[i]!='"'&&t[i]!='\'') return end( Error); char q=t[i++];
			s=i; while (i<n&&t[i]!=q) ++i; if (i==n) return end( More); if (name=="encoding") encoding=t.substr( s, i-s); ++i;
		}
	}
};
// lengths around the limits of small integer types
static unsigned bigLen( Rng& r) {switch (r.below(5)) {case 0: return 250+r.below(12); case 1: return 120+r.below(16); case 2: return 65528+r.below(16); case 3: return 1000+r.below(9000); default: return 65000+r.below(9000);}}
static std::string gen( Rng& r, bool big=false)
{
	std::string s; auto ws=[&]( bool need) {std::string w; unsigned n=need?1+(r.chance(1,4)?r.below(4):0):(r.chance(1,4)?r.below(4):0); if (big && r.chance(1,4)) n+=bigLen(r); while (n--) w+=" \t\r\n"[ r.below( r.chance(1,2)?1:4)]; return w;};
	s+=ws(false); s+="<"; if (r.chance(1,20)) s+=ws(true);
	if (r.chance(1,6)) {s+=r.chance(1,8)?"_":std::string( 1, r.chance(1,2)?'a'+r.below(26):'A'+r.below(26)); s+="oc>text</doc>"; return s;}
	s+="?xml"; unsigned n=r.chance(1,10)?0:1+r.below(3);
	static const char* encs[]={"UTF-8","utf-16","ISO-8859-1","isolatin1","UCS-4BE","x","","Shift_JIS","windows-1252","it's \"q\" = ? > <","UTF-16LE "};
	static const char* vers[]={"1.0","1.1","","encoding='UTF-8'","?>"};
	for (unsigned i=0;i<n;++i)
	{
		unsigned k=r.chance(1,2)?i:r.below(3); std::string name=k==0?"version":k==1?"encoding":"standalone", v=k==0?vers[ r.chance(2,3)?0:r.below(5)]:k==1?encs[ r.below(11)]:r.chance(1,2)?"yes":"no";
		char q=r.chance(1,2)?'"':'\''; if (v.find(q)!=std::string::npos) {std::string w; for (char c:v) if (c!=q) w+=c; v=w;}
		if (k==1 && r.chance(1,big?2:6)) {v.clear(); unsigned l=big?bigLen(r):r.below(60); while (l--) {char c=(char)(33+r.below(94)); if (c!=q) v+=c;}}
		s+=ws( i==0||!r.chance(1,4))+name+ws(false)+"="+ws(false)+q+v+q;
	}
	s+=ws(false)+"?>"; if (r.chance(2,3)) s+="<doc a=\"1\">text</doc>";
	return s;
}
static std::string mutate( Rng& r, std::string t)
{
	static const std::string al=" <>?='\"xmlencodingversionstandaloneXML_-!/&1\t\n\x01\x7f\x80\xc3\xff";
	unsigned n=1+r.below(2);
	while (n--)
	{
		size_t p=r.below( t.size()+1); if (r.chance(1,2)) p=std::min<size_t>( p, r.below(25));
		switch (r.below(5)) {case 0: t.insert( p, 1, al[ r.below( al.size())]); break; case 1: if (p<t.size()) t.erase( p, 1); break; case 2: if (p<t.size()) t[p]=al[ r.below( al.size())]; break; case 3: t.resize( p); break; default: if (p+1<t.size()) std::swap( t[p], t[p+1]);}
	}
	return t;
}
void run( uint64_t idx, Rng& r)
{
	bool big=idx%499==0; std::string t=gen( r, big); if (r.chance(1,3)) t=mutate( r, t); if (big) {count( "headers with long parts"); maxv( "bytes of a header", t.size());}
	// layout
	unsigned lay=r.below(7), w=lay==0?1:lay<3?2:lay<5?4:0; bool be=lay==2||lay==4; std::string b; bool tooMany=false; size_t limit=0, nulls=0;
	if (w) for (unsigned char c:t) {if (be) b.append( w-1, '\0'); b+=(char)c; if (!be) b.append( w-1, '\0');}
	else
	{
		// any number of null bytes in between
		bool hostile=r.chance(1,3); for (unsigned char c:t) {unsigned n=r.below(4); if (hostile && !tooMany && r.chance(1,20)) {n=5+r.below(4);} if (n>4 && !tooMany) {tooMany=true; limit=b.size();} b.append( n, '\0'); b+=(char)c;}
		if (r.chance(1,3)) b.append( r.below(4), '\0');
	}
	if (w==4 && (t.find( '\0')!=std::string::npos)) return;
	std::vector<std::pair<size_t,size_t> > pieces; size_t p=0; unsigned style=r.below(4); size_t cs=0;
	while (p<b.size()) {size_t n=style==0?b.size():style==1?1:style==2?r.below(8):1+r.below(40); if (big && style) n+=b.size()/30+r.below( b.size()/8+1); n=std::min( n, b.size()-p); pieces.push_back( std::make_pair( p, n)); p+=n; if (n==0 && pieces.size()>1000) break;}
	if (p<b.size()) pieces.push_back( std::make_pair( p, b.size()-p));
	note( "layout "+num(lay)+" pieces "+num(pieces.size())+" text '"+show( t)+"' bytes '"+show( b, 2000)+"'"); if (idx<80&&idx%19==0) sample( "layout "+num(lay)+" in "+num( pieces.size())+" pieces: '"+show( t, 200)+"'");
	std::unique_ptr<XmlHdrParser> ph( new XmlHdrParser());
	if (r.chance(1,4))	// used before for something else
	{
		std::string o=r.chance(1,2)?gen(r):mutate( r, gen(r)); o.resize( r.below( o.size()+1)); if (r.chance(1,5)) o.append( 7, '\0'); ph->putInput( o.data(), o.size());
		try {ph->parse();} catch (const textwolf::exception& e) {if (e.cause!=textwolf::throws_exception::IllegalXmlHeader) fail( "wrong cause of exception");}
		ph->clear(); if (ph->encoding()||ph->lasterror()||!ph->consumedData().empty()||ph->charsConsumed()) fail( "parser not empty after clear"); count( "parsers used again after clear");
	}
	std::string got; bool over=false;
	for (size_t k=0;k<pieces.size() && !over;++k)
	{
		char* m=(char*)malloc( pieces[k].second?pieces[k].second:1); memcpy( m, b.data()+pieces[k].first, pieces[k].second); ph->putInput( m, pieces[k].second); memset( m, 0x5A, pieces[k].second); free( m);
		got.append( b, pieces[k].first, pieces[k].second);
		if (k+1<pieces.size() && style==2 && r.chance(1,3)) continue;	// several pieces before the next call
		if (r.chance(1,20)) {const bool cc=r.chance(1,2); std::unique_ptr<XmlHdrParser> q( cc?new XmlHdrParser( *ph):new XmlHdrParser()); if (!cc) *q=*ph; ph.swap( q); count( "parsers continued with a copy");}
		std::string chars; size_t run=0; bool exc=false; for (unsigned char c:got) {if (c) {chars+=(char)c; run=0;} else if (++run>4) {exc=true; break;}}
		Ref ref( chars); bool rt=false, thrown=false;
		try {rt=ph->parse();} catch (const textwolf::exception& e) {thrown=true; if (e.cause!=textwolf::throws_exception::IllegalXmlHeader) fail( "wrong cause of exception");}
		const char* le=ph->lasterror(); const char* en=ph->encoding(); std::string at=" after "+num( got.size())+" bytes";
		if (thrown)
		{
			if ((!exc && run!=4) || ref.st!=Ref::More) fail( "exception"+at); over=true; count( "exceptions");
			try {ph->parse(); fail( "no exception if called again");} catch (const textwolf::exception&) {}
		}
		else switch (ref.st)
		{
			case Ref::Done: if (!rt || le) fail( (le?std::string("error '")+le+"'":std::string("not complete"))+at+", expected completion"); over=true; count( "completed");
				if (ref.encoding.empty()?en!=0:(!en||ref.encoding!=en)) fail( std::string("encoding '")+show( en?en:"(null)")+"', expected '"+show( ref.encoding)+"'"); if (en) {count( "encodings found"); seen( "encodings", hash( en));}
				{size_t cc=0; for (size_t i=0;i<ref.at;++i) if ((unsigned char)chars[i]>32) ++cc; if (ph->charsConsumed()!=cc && ph->charsConsumed()!=ref.at) fail( "charsConsumed() returns "+num( ph->charsConsumed())+" instead of "+num( cc)+" (spaces not counted)");} break;
			case Ref::Error: if (rt || !le || !*le) fail( std::string(rt?"completed":"no error")+at+", expected an error"); over=true; count( "errors"); seen( "error messages", hash( le)); break;
			default: if (exc) fail( "no exception"+at); if (rt) fail( "completed"+at+", expected to need more"); if (le) fail( std::string("error '")+le+"'"+at+", expected to need more"); count( "requests for more");
				if (ref.encoding.empty()?en!=0:(!en||ref.encoding!=en)) fail( std::string("encoding '")+show( en?en:"(null)")+"' before completion, expected '"+show( ref.encoding)+"'");
				seen( "texts asked for more", hash( chars));
		}
		if (ph->consumedData()!=got) fail( "consumed data is not the data put in");
	}
	if (over) distinct( mix( hash( b), hash( &pieces[0], pieces.size()*sizeof(pieces[0]))));
	(void)cs; (void)limit; (void)nulls;
}
}
