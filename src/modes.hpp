// Probes for the deviations listed as known findings: what is expected of the generated documents follows the tree under test
// in these points (reported by check C05/C15 only), everything else is fixed.
#pragma once
#include "adapter.hpp"
namespace modes {
inline std::string flat( const scan::Res& r)
{
	std::string s;
	for (auto& e:r.ev) {s+=doc::typeName( e.type); s+="'"; s+=e.type==doc::ErrorOccurred?vf::num(e.err):e.val; s+="',";}
	return s;
}
struct Probe { const char* key; const char* src; const char* wrong; const char* right[3]; const char* what; };
// right: accepted results of a repaired tree (with data delivered separately or joined)
static const Probe probes[] = {
	{"cdata-dropped","<a>x<![CDATA[<y&]]>z</a>", "OpenTag'a',Content'x',Content'z',CloseTag'a',Exit'',",
		{"OpenTag'a',Content'x',Content'<y&',Content'z',CloseTag'a',Exit'',","OpenTag'a',Content'x<y&z',CloseTag'a',Exit'',",0}, "text of CDATA sections is not reported, <a>x<![CDATA[<y&]]>z</a> yields the contents 'x' and 'z'"},
	{"ws-after-comment","<a>b<!--c--> d</a>", "OpenTag'a',Content'b',Content'd',CloseTag'a',Exit'',",
		{"OpenTag'a',Content'b',Content' d',CloseTag'a',Exit'',","OpenTag'a',Content'b d',CloseTag'a',Exit'',",0}, "white space directly after a comment in element content is lost, <a>b<!--c--> d</a> yields 'b' and 'd'"},
	{"dtd-bracket","<!DOCTYPE a [<!ENTITY e \"]\">]><a/>", "DocAttribValue'DOCTYPE',DocAttribValue'a',ErrorOccurred'6',",
		{"DocAttribValue'DOCTYPE',DocAttribValue'a',DocAttribEnd'',OpenTag'a',CloseTagIm'',Exit'',",0,0}, "']' inside of a literal in the internal DTD subset ends the subset, <!DOCTYPE a [<!ENTITY e \"]\">]><a/>"},
	{"pi-start","<?style x?><a/>", "ErrorOccurred'5',",
		{"OpenTag'a',CloseTagIm'',Exit'',",0,0}, "a document starting with a processing instruction without XML declaration is refused, <?style x?><a/>"},
};
// returns -1 unknown, 0 right, 1 wrong as listed
inline int probe( const Probe& p, std::string& got)
{
	scan::Req q; got=flat( scan::run( q, p.src));
	if (got==p.wrong) return 1;
	for (int i=0;i<3&&p.right[i];++i) if (got==p.right[i]) return 0;
	return -1;
}
inline void detect( bool report)
{
	doc::Modes& m=doc::modes(); bool* f[]={&m.cdataDropped,&m.wsAfterCommentDropped,&m.dtdBracket,&m.piStart};
	for (int i=0;i<4;++i)
	{
		std::string got; int k=probe( probes[i], got);
		if (report)
		{
			vf::count( "probes of known findings");
			if (k==1) vf::known( probes[i].key, probes[i].what);
			else if (k<0) vf::fail( std::string("document ")+probes[i].src+" reported as "+got);
		}
		*f[i] = k!=0;
	}
}
}
