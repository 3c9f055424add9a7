"""prove everything once on the pinned tree and record the IR hash of each proved function (specs/baseline.json)"""
import sys,os,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+'/engine',V+'/specs',V]
import tempfile,build,check,prove,common
def main():
    tmp=tempfile.mkdtemp(); ll=build.build_ir(tmp); prove.load_specs(); 
    for c in common.REG.values(): c.props=list(c.props)+['ALL']
    res,seen,tr,undt,H,base,common_=check.prove_all(ll,'ALL',7200,False)
    fs=check.classify(res,H,{})
    out={f:{'hash':d['hash'],'wall':round(d['wall'],1),'obligations':d['obl']} for f,d in sorted(fs.items()) if d['status']=='proved'}
    json.dump(out,open(V+'/specs/baseline.json','w'),indent=0)
    print(len(out),'proved;',sum(d['obl'] for d in fs.values()),'obligations; not proved:',{f:[x['label'] for x in d['fail']+d['und']][:2] for f,d in fs.items() if d['status']!='proved'},undt)
main()
