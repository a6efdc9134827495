from common import *
import hrithdr as H_, contracts
SRCS=lambda: ['msat/hrit/'+f for f in sorted(os.listdir(REPO+'/msat/hrit')) if f.endswith('.cpp') and f.startswith('MSG_') and f not in('MSG_data_image.cpp','MSG_HRIT.cpp')]+['msat/facts.cpp',H('stub_image.cpp')]
def check():
    C=Check('C02')
    H_.lay()
    C.unit('MSG_header::read_from: records are attributed by type',H_.unit_walk)
    for c in('MSG_header_image_struct','MSG_header_timestamp','MSG_header_key','MSG_header_segment_id'): C.unit(c+'::read_from',H_.unit_fixed(c))
    C.unit('MSG_segment_quality::set',H_.unit_fixed('MSG_segment_quality','set'))
    C.unit('MSG_header_segment_quality::read_from',H_.unit_quality_loop)
    C.unit('MSG_header_annotation::read_from',H_.unit_annotation((61,)))
    C.unit('MSG_header_image_navig::read_from projection text',H_.unit_projection)
    for c in('MSG_header_image_datafunc','MSG_header_ancillary_text'): C.unit(c+'::read_from',H_.unit_text(c))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('hdr',[H('hdr.cpp')]+SRCS(),extra=('-fno-strict-aliasing','-fno-sanitize=enum,bool'))
    rnd=C.rnd; cases=[]
    for c in H_.REC:
        for k in range(12 if C.quick else 80): cases.append(H_.header(rnd,[c] if c!='MSG_header_segment_quality' else ['MSG_header_image_struct',c]))
    for k in range(250 if C.quick else 3000): cases.append(H_.header(rnd))
    cases+=H_.long_headers(rnd)
    outs=C.run_cases(exe,[b.hex() for b in cases])
    def cmp(b,o,what='header'):
        if not H_.match(o,H_.parse(b)): C.expect(what,b.hex(),o,'|'.join(H_.parse(b) or ['EXC']))
        else: C.expect(what,b[:200],'ok','ok')
    for b,o in zip(cases,outs): cmp(b,o)
    def replay(case,r):
        c,b=case
        if c=='MSG_segment_quality': h=b'\x01\0\x09\x08\0\1\0\1\0'+b'\x81\0\x10'+b
        else:
            h=bytearray(b); h[0]=H_.REC[c][0]; h[1:3]=H_.REC[c][1].to_bytes(2,'big'); h=bytes(h)
        h=b'\0\0\x10\0'+(16+len(h)).to_bytes(4,'big')+bytes(8)+h
        cmp(h,C.run_cases(exe,[h.hex()])[0],'counterexample of '+r['name'])
    return C.finish(replayer=replay,rule='one whole header file decoded and all its records compared; distinct by content')
if __name__=="__main__": main(check)
