from common import *
import dataspec as D
def check():
    C=Check('C11'); D.lay()
    for hrv in(False,True):
        for sw in(False,True): C.unit('line_read, %s, %s'%('HRV' if hrv else 'not HRV','mirrored' if sw else 'not mirrored'),D.unit_line_read(hrv,sw))
    C.unit('line_start',D.unit_line_start); C.unit('scanSegment',D.unit_scan_segment)
    for k in range(4):
        for h in((False,True) if k else(False,)): C.unit('scan() of %d segment files%s'%(k,', HRV' if h else ''),D.unit_scan(k,h))
    C.bounded.append(dict(unit='scan()',why='its contract is proved for up to 3 segment files; more files only in the concrete comparison'))
    C.prove(os.environ.get('ONLY'))
    exe=D.harness(C); D.scenes(C,exe,40 if C.quick else 300,'lines of an image')
    return C.finish(rule='one image on disk (segment size, width, missing segments, orientation, coverage) and one sequence of requests')
if __name__=="__main__": main(check)
