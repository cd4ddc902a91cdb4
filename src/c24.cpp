// C24: every name and message belongs to the code it is reported for
#include "cs.hpp"
#include "gendoc.hpp"
#include "pathmodel.hpp"
#include "printer.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmlpathselect.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/exception.hpp"
#include <memory>
#include <algorithm>
namespace vf {
const Check check={"C24",250000,3000000,"distinct documents with their errors, and codes of all enumerations",0,30};
using namespace textwolf;
typedef XMLScannerBase XB; typedef throws_exception TX; typedef XMLPathSelectAutomaton<> PA; typedef std::string Str;
static void is( const char* what, const char* got, const char* expected)
{
	if (!got) fail( Str("name of ")+what+" is NULL");
	size_t n=strlen( got); for (size_t i=0;i<n;++i) if ((unsigned char)got[i]<32||(unsigned char)got[i]>126) fail( Str("name of ")+what+" is not printable: "+show( got));	// (reads all of it)
	if (strcmp( got, expected)) fail( Str("name of ")+what+" is '"+show( got)+"'");
	count( "names compared"); distinct( hash( Str(what)+expected));
}
struct Unique {std::set<Str> s; void add( const char* what, const Str& v) {if (v.empty()||!s.insert( v).second) fail( Str("message of ")+what+" is empty or the message of another code too: '"+v+"'"); for (char c:v) if (c<32||c>126) fail( Str("message of ")+what+" is not printable"); distinct( hash( v));}};
static void statics()
{
#define E(X) is( "element type " #X, XB::getElementTypeName( XB::X), #X);
	E(None) E(ErrorOccurred) E(HeaderStart) E(HeaderAttribName) E(HeaderAttribValue) E(HeaderEnd) E(DocAttribValue) E(DocAttribEnd) E(TagAttribName) E(TagAttribValue) E(OpenTag) E(CloseTag) E(CloseTagIm) E(Content) E(Exit)
#define S(X) is( "state " #X, XB::getStateString( XB::X), #X);
	S(START) S(STARTTAG) S(XTAG) S(PITAG) S(PITAGEND) S(XTAGEND) S(XTAGDONE) S(XTAGAISK) S(XTAGANAM) S(XTAGAESK) S(XTAGAVSK) S(XTAGAVID) S(XTAGAVSQ) S(XTAGAVDQ) S(XTAGAVQE)
	S(DOCSTART) S(CONTENT) S(TOKEN) S(SEEKTOK) S(XMLTAG) S(OPENTAG) S(CLOSETAG) S(TAGCLSK) S(TAGAISK) S(TAGANAM) S(TAGAESK) S(TAGAVSK) S(TAGAVID) S(TAGAVSQ) S(TAGAVDQ) S(TAGAVQE)
	S(TAGCLIM) S(ENTITYSL) S(ENTITY) S(ENTITYE) S(ENTITYID) S(ENTITYSQ) S(ENTITYDQ) S(ENTITYLC) S(COMDASH2) S(COMSEEKE) S(COMENDD2) S(COMENDCL) S(CDATA) S(CDATA1) S(CDATA2) S(CDATA3) S(EXIT)
#define A(X) is( "action " #X, XB::getActionString( XB::X), #X);
	A(Return) A(ReturnWord) A(ReturnContent) A(ReturnIdentifier) A(ReturnSQString) A(ReturnDQString) A(ExpectIdentifierXML) A(ExpectIdentifierCDATA) A(ReturnEOF)
#define C(X) is( "control character " #X, ControlCharacterM::name( textwolf::X), #X);
	C(Undef) C(EndOfText) C(EndOfLine) C(Cntrl) C(Space) C(Amp) C(Lt) C(Equal) C(Gt) C(Slash) C(Dash) C(Exclam) C(Questm) C(Sq) C(Dq) C(Osb) C(Csb) C(Any)
	// every ASCII character has the class named for it
	for (unsigned c=0;c<128;++c)
	{
		char b[2]={(char)c,0}; TextScanner<CStringIterator,charset::UTF8> ts( charset::UTF8(), CStringIterator( b, 1)); const char* e; const char* got=ControlCharacterM::name( ts.control());
		switch (c) {case 0: e="EndOfText"; break; case '\n': e="EndOfLine"; break; case '\r': case '\t': case ' ': e="Space"; break; case '&': e="Amp"; break; case '<': e="Lt"; break; case '=': e="Equal"; break; case '>': e="Gt"; break; case '/': e="Slash"; break; case '-': e="Dash"; break; case '!': e="Exclam"; break; case '?': e="Questm"; break; case '\'': e="Sq"; break; case '"': e="Dq"; break; case '[': e="Osb"; break; case ']': e="Csb"; break; case 5: continue; default: e=c<32?"Cntrl":"Any";}
		is( (Str("class of character ")+num(c)).c_str(), got, e);
	}
#define O(X) is( "operation " #X, PA::operationName( PA::X), #X); {PA::Mask m; if (Str("None")!=m.seekopName()) fail( "name of the empty mask"); m.seekop( PA::X); is( "mask of operation " #X, m.seekopName(), #X); PA::Mask k; k.join( m); is( "joined mask of operation " #X, k.seekopName(), #X);}
	O(Content) O(OpenTag) O(CloseTag) O(Attribute) O(ThisAttributeValue) O(AttributeValue) O(ContentStart)
#define X(N) {textwolf::exception e( TX::N); if (e.cause!=TX::N) fail( "cause of exception " #N); is( "exception " #N, e.what(), #N); textwolf::exception c( e), a( TX::N==TX::Unknown?TX::OutOfMem:TX::Unknown); is( "copy of exception " #N, c.what(), #N); a=e; if (a.cause!=TX::N) fail( "cause of assigned exception " #N); is( "assigned exception " #N, a.what(), #N); try {throw e;} catch (const std::exception& x) {is( "caught exception " #N, x.what(), #N);}}
	X(Unknown) X(DimOutOfRange) X(StateNumbersNotAscending) X(InvalidParamState) X(InvalidParamChar) X(DuplicateStateTransition) X(InvalidState) X(IllegalParam) X(IllegalAttributeName) X(OutOfMem) X(ArrayBoundsReadWrite) X(NotAllowedOperation) X(FileReadError) X(IllegalXmlHeader) X(InvalidTagOffset) X(CorruptTagStack) X(CodePageIndexNotSupported)
	// error messages: different from each other and containing the words of what the code is documented for
	struct {XB::Error e; const char* name; const char* words[4];} er[]={
		{XB::ErrIllegalDocumentAttributeDef,"ErrIllegalDocumentAttributeDef",{"document","attribute",0}},{XB::ErrExpectedOpenTag,"ErrExpectedOpenTag",{"open","tag",0}},{XB::ErrExpectedXMLTag,"ErrExpectedXMLTag",{"xml","tag",0}},
		{XB::ErrUnexpectedEndOfText,"ErrUnexpectedEndOfText",{"end","text",0}},{XB::ErrSyntaxToken,"ErrSyntaxToken",{"token",0}},{XB::ErrStringNotTerminated,"ErrStringNotTerminated",{"string","terminated",0}},{XB::ErrUndefinedCharacterEntity,"ErrUndefinedCharacterEntity",{"undefined","entity",0}},
		{XB::ErrExpectedTagEnd,"ErrExpectedTagEnd",{"tag","end",0}},{XB::ErrExpectedEqual,"ErrExpectedEqual",{"equal",0}},{XB::ErrExpectedTagAttribute,"ErrExpectedTagAttribute",{"tag","attribute",0}},{XB::ErrExpectedCDATATag,"ErrExpectedCDATATag",{"cdata",0}},{XB::ErrInternal,"ErrInternal",{"internal",0}},
		{XB::ErrUnexpectedEndOfInput,"ErrUnexpectedEndOfInput",{"end","input",0}},{XB::ErrExpectedEndOfLine,"ErrExpectedEndOfLine",{"end","line",0}},{XB::ErrExpectedDash2,"ErrExpectedDash2",{"-","comment",0}}};
	Unique u; unsigned n=0;
	for (auto& x:er)
	{
		const char* m=XB::getErrorString( x.e); if (!m) fail( Str("no message for ")+x.name); u.add( x.name, m); Str l=m; for (char& c:l) c=tolower( c);
		for (unsigned i=0;x.words[i];++i) if (l.find( x.words[i])==Str::npos) fail( Str("message of ")+x.name+" is '"+m+"'");
		++n;
	}
	count( "error messages compared", n); if (XB::getErrorString( XB::Ok)) fail( "message of no error");
}
// exceptions raised by what they are documented for
struct BadStream :IStream {size_t read( void*, size_t) {return 0;} int errorcode() const {return 5;}};
template <class F> static void raises( const char* what, TX::Cause cause, const char* name, F f)
{
	bool raised=false;
	try {f();}
	catch (const textwolf::exception& e) {raised=true; if (e.cause!=cause) fail( Str(what)+" raises exception "+show( e.what())); is( what, e.what(), name); const std::exception& b=e; is( what, b.what(), name);}
	if (!raised) fail( Str(what)+" raises no exception");
	count( "exceptions provoked"); distinct( hash( Str(what)));
}
#define RAISES(WHAT,CAUSE,...) raises( WHAT, TX::CAUSE, #CAUSE, [&] __VA_ARGS__)
static void provoke( Rng& r)
{
	unsigned k=r.below(200); char text[]="abcdefghijklmnopqrst";
	RAISES( "code page 0", CodePageIndexNotSupported, {charset::IsoLatin p( 0); (void)p;}); RAISES( "code page above 9", CodePageIndexNotSupported, {charset::IsoLatin p( 10+k); (void)p;});
	RAISES( "a failing stream", FileReadError, {BadStream b; IStreamIterator it( &b, 1+k); char c=*it; (void)c;});
	RAISES( "the difference of iterators of different chunks", IllegalParam, {SrcIterator a( text, 10), b( text+10, 10); size_t d=b-a; (void)d;});
	RAISES( "reading a buffer beyond its end", DimOutOfRange, {StaticBuffer b( 50); b.append( text, k%20); char c=b[ k%20+r.below(3)]; (void)c;});
	RAISES( "an illegal XML header", IllegalXmlHeader, {XmlHdrParser p; Str s( 5+k, '\0'); p.putInput( s.data(), s.size()); p.parse();});
	RAISES( "a state machine with wrong numbers", StateNumbersNotAscending, {ScannerStatemachine m; m[0]; m[2+k];});
	RAISES( "a state machine with too many states", DimOutOfRange, {ScannerStatemachine m; for (int i=0;i<200;++i) m[i];});
	RAISES( "a state machine with an illegal follow state", InvalidParamState, {ScannerStatemachine m; m[0]( Lt, 65+k);}); RAISES( "a state machine with an illegal fallback", InvalidParamState, {ScannerStatemachine m; m[0].fallback( -1-(int)k);}); RAISES( "a state machine with an illegal other state", InvalidParamState, {ScannerStatemachine m; m[0].other( 65+k);});
	RAISES( "a state machine with an illegal character", InvalidParamChar, {ScannerStatemachine m; m[0]( (ControlCharacter)18, 0);});
	RAISES( "a state machine with a transition defined twice", DuplicateStateTransition, {ScannerStatemachine m; m[0]( (ControlCharacter)(k%18), 0)( (ControlCharacter)(k%18), 0);});
	RAISES( "a state machine without state", InvalidState, {ScannerStatemachine m; m( Lt, 0);}); RAISES( "a state machine with two actions", InvalidState, {ScannerStatemachine m; m[0].action(0).action(1);}); RAISES( "a state machine with two error codes", InvalidState, {ScannerStatemachine m; m[0].miss(1).miss(2);}); RAISES( "a state machine with two fallbacks", InvalidState, {ScannerStatemachine m; m[0].fallback(0).fallback(0);});
	RAISES( "a state that does not exist", InvalidState, {ScannerStatemachine m; m[0]; m.get( 2+k);});
}
void init() { statics(); }
// the scanner and its iterator report the same type, name, error and message
template <class In, class Out> static void scan_( Rng& r, const gd::Case& c)
{
	typedef XMLScanner<SrcIterator,In,Out,Str> SC; typename SC::EntityMap em; if (c.opt.ents) for (auto& e:*c.opt.ents) em[ e.first.c_str()]=e.second;
	char* p=(char*)malloc( c.bytes.size()?c.bytes.size():1); memcpy( p, c.bytes.data(), c.bytes.size()); SrcIterator s( p, c.bytes.size());
	SC a( cs::Info<In>::make( c.page), s, em), b( cs::Info<In>::make( c.page), s, em); bool first=r.chance(1,2); typename SC::iterator it=b.begin( first), end=b.end(); if (!first) {if (it->type()!=XB::None || Str("None")!=it->name()) fail( "iterator before the first element"); if (it==end) fail( "iterator before the first element equals the end"); ++it;}
	Unique u; size_t limit=c.bytes.size()*3+20; Str types;
	for (;;)
	{
		if (!limit--) fail( "too many elements");
		XB::ElementType t=a.nextItem(); const char* m="unset"; const bool noText=r.chance(1,8); XB::Error e=noText?a.getError():a.getError( &m); if (noText) m=XB::getErrorString( e); const typename SC::iterator::Element& x=*it;
		if (x.type()!=t) fail( Str("iterator reports ")+show( x.name())+" instead of "+XB::getElementTypeName( t));
		is( "type of the element of the iterator", x.name(), doc::typeName( (int)t)); types+=(char)('A'+t);
		if (x.valid()!=(t!=XB::Exit && t!=XB::ErrorOccurred)) fail( Str("valid() of ")+x.name());
		if ((t==XB::ErrorOccurred)!=(e!=XB::Ok)) fail( Str("element ")+XB::getElementTypeName( t)+" with error code "+num( e));
		const char* em_=XB::getErrorString( e);
		if ((m==0)!=(em_==0) || (m && strcmp( m, em_))) fail( Str("message of error ")+num( e)+" is "+(m?show( m):"NULL"));
		if (t==XB::ErrorOccurred)
		{
			if (!x.error() || strcmp( x.error(), em_)) fail( Str("error of the iterator is ")+(x.error()?show( x.error()):"NULL")+" instead of "+em_);
			if (x.content() && Str( x.content(), x.size())!=em_) fail( "content of an error element"); XB::Error be=b.getError( &m); if (be!=e || !m || strcmp( m, em_)) fail( "error of the scanner iterated on");
			seen( "errors reported", e*16+(types.size()>1?types[ types.size()-2]:0)); seen( "error codes reported", e); count( "errors compared"); break;
		}
		if (x.error()) fail( Str("error of a valid element: ")+show( x.error()));
		if (a.getItemSize()!=x.size() || Str( a.getItemPtr(), a.getItemSize())!=Str( x.content(), x.size())) fail( "content of the iterator differs");
		if ((it==end)!=(t==XB::Exit) || (it!=end)!=(t!=XB::Exit)) fail( "comparison with the end"); count( "elements compared");
		if (t==XB::Exit) break;
		if (r.chance(1,2)) ++it; else {typename SC::iterator o=it++; if (o->type()!=t) fail( "iterator returned by the postincrement");}
	}
	free( p); distinct( hash( c.bytes));
}
template <class A> static void path( Rng& r)
{
	// operations of an automaton as printed
	XMLPathSelectAutomaton<A> a; std::vector<Str> ops; typename XMLPathSelectAutomaton<A>::PathElement e=*a; unsigned n=1+r.below(5);
	struct {const char* name; } none; (void)none;
	for (unsigned i=0;i<n;++i) switch (r.below(3))
	{
		case 0: e.selectTag( "t"); ops.push_back( "OpenTag"); break;
		case 1: e.ifAttribute( "n", "v"); ops.push_back( "Attribute"); ops.push_back( "ThisAttributeValue"); break;
		default: e.selectTag( 0); ops.push_back( "OpenTag");
	}
	switch (r.below(3)) {case 0: e.selectCloseTag(); ops.push_back( "CloseTag"); e.assignType( 7); break; case 1: e.selectAttribute( "k"); ops.push_back( "Attribute"); e.assignType( 7); break; default: e.selectContent(); e.assignType( 7);}
	Str s=a.tostring(); size_t pos=0; for (auto& o:ops) {size_t f=s.find( "/"+o, pos); if (f==Str::npos) fail( "operation "+o+" is missing in '"+show( s)+"'"); pos=f+1;}
	count( "automatons printed");
}
void run( uint64_t idx, Rng& r)
{
	if (idx<8) statics();
	if (r.chance(1,50)) {provoke( r); path<charset::UTF8>( r);}
	gd::Case c; gd::pickEnc( r, c); c.in=r.chance(1,2)?enc::UTF8:r.chance(1,2)?enc::UTF16BE:enc::ISO; if (c.in!=enc::ISO) c.page=1; else c.page=1+r.below(9);
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=1+r.below(8); o.maxdepth=1+r.below(3); o.unquoted=r.chance(1,4);
	gd::generate( r, c, o); if (r.chance(2,3)) {gd::mutate( r, c.src, 1+r.below(3), c.opt.ok); c.bytes=enc::enc( c.src, c.in, c.page);} if (r.chance(1,4)) c.bytes.resize( r.below( c.bytes.size()+1));
	note( gd::describe( c)); if (idx<300&&idx%77==0) sample( gd::describe( c));
	switch (c.in) {case enc::UTF8: scan_<charset::UTF8,charset::UTF8>( r, c); break; case enc::UTF16BE: scan_<charset::UTF16BE,charset::UTF8>( r, c); break; default: scan_<charset::IsoLatin,charset::UCS2LE>( r, c);}
}
}
