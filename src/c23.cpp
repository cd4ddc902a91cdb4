// C23: line ends are normalised as the XML standard requires
#include "gendoc.hpp"
namespace vf {
// all sequences over the alphabet up to a length, in content and attribute values, in all character sets, with all single chunk borders
static const int A=9;
static const char32_t* const raw_[A]={U"\r",U"\n",U"x",U"\t",U" ",U"&#13;",U"&#10;",U"&amp;",U"\u0085"};
static const char32_t* const val_[A]={U"\n",U"\n",U"x",U"\t",U" ",U"\r",U"\n",U"&",U"\u0085"};
static uint64_t total( int len) {uint64_t t=0,p=1; for (int i=0;i<=len;++i) {t+=p; p*=A;} return t;}
const Check check={"C23",total(4)*3,total(5)*12,"all sequences of CR, LF, character, tab, space, references to CR, LF and &, and NEL up to length 4 (quick) or 5 (thorough) as content, header, single and double quoted attribute values, each with all single chunk borders; distinct by source and character sets",0,30};
void init() { modes::detect( false); }
void run( uint64_t idx, Rng& r)
{
	uint64_t rounds=thorough()?12:3; uint64_t k=idx/rounds; int variant=(int)(idx%rounds);
	std::vector<int> seq; int len=0; uint64_t p=1; while (k>=p) {k-=p; p*=A; ++len;}
	for (int i=0;i<len;++i) {seq.push_back( k%A); k/=A;}
	int ctx=r.below(5); char32_t q=ctx==1||ctx==3?U'\'':U'"';
	gd::Case c; gd::pickEnc( r, c); if (variant==0) {c.in=c.out=enc::UTF8; c.page=1;}
	doc::U raw,val; 
	for (size_t i=0;i<seq.size();++i)
	{
		doc::U x=raw_[seq[i]]; if (x==U"\u0085" && !enc::rep( c.in, 0x85, c.page)) {raw+=U"y"; val+=U"y"; continue;}
		// expected by the standard: CR LF -> LF, CR -> LF
		if (x==U"\n" && i>0 && seq[i-1]==0) {raw+=x; continue;}
		raw+=x; val+=val_[seq[i]];
	}
	doc::U s; doc::Evs ev; auto E=[&]( int t, const doc::U& u) {ev.push_back( doc::Ev( t, u, 0, 0));};
	switch (ctx)
	{
		case 0: s=U"<t>"+raw+U"</t>"; E( doc::OpenTag, U"t"); if (!raw.empty()) E( doc::Content, val); E( doc::CloseTag, U"t"); break;
		case 1: case 2: s=doc::U(U"<t a=")+q+raw+q+U"/>"; E( doc::OpenTag, U"t"); E( doc::TagAttribName, U"a"); E( doc::TagAttribValue, val); E( doc::CloseTagIm, U""); break;
		case 3: s=doc::U(U"<?xml a=")+q+raw+q+U"?><t/>"; E( doc::HeaderStart, U"?xml"); E( doc::HeaderAttribName, U"a"); E( doc::HeaderAttribValue, val); E( doc::HeaderEnd, U""); E( doc::OpenTag, U"t"); E( doc::CloseTagIm, U""); break;
		default: s=U"<t>a<b/>"+raw+U"<b/>"+raw+U"</t>"; E( doc::OpenTag, U"t"); E( doc::Content, U"a"); for (int i=0;i<2;++i) {E( doc::OpenTag, U"b"); E( doc::CloseTagIm, U""); if (!raw.empty()) E( doc::Content, val);} E( doc::CloseTag, U"t");
	}
	E( doc::Exit, U"");
	c.src=s; c.bytes=enc::enc( s, c.in, c.page);
	scan::Req rq; rq.in=c.in; rq.inPage=c.page; rq.out=c.out;
	note( gd::describe( c));
	scan::Res w=scan::run( rq, c.bytes);
	std::string d=scan::compare( w, ev, rq.out);
	if (!d.empty()) fail( d);
	count( "line end sequences checked");
	for (size_t i=0;i<=c.bytes.size();++i)
	{
		rq.src=(i&1)?scan::PUTINPUT:scan::SETSOURCE; rq.cuts.assign( 1, i);
		note( gd::describe( c)+"\ncut at "+num(i)+" "+scan::srcName(rq.src));
		d=scan::compare( scan::run( rq, c.bytes), ev, rq.out);
		if (!d.empty()) fail( d);
		count( "chunked scans compared");
	}
	seen( "sequences", hash( raw.data(), raw.size()*4)); seen( "contexts", ctx); seen( "pairs of character sets", (c.in*10+c.page)*16+c.out);
	if (raw.find(U'\r')!=doc::U::npos || raw.find(U'\n')!=doc::U::npos) distinct( hash( c.bytes)+c.out*31);
	if (idx>300 && idx<316) sample( gd::describe(c));
}
}
