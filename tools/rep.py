import json,os,sys
for c in sys.argv[1:]:
    f=f'/verif/evidence/replays/{c}.json'
    if os.path.exists(f):
        d=json.load(open(f)); print('\n'.join(x[:160] for x in d.get('witness',[])[-14:]),'\n  =>',str(d.get('shrunk_report') or d['first_report'])[:500]); os.remove(f)
