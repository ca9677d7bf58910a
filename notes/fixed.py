# fixed.py PROPERTY COMMIT "what failed": add a fixed record
import json, sys
p='/verif/known-findings.json'; k=json.load(open(p)); P,c,w=sys.argv[1:4]
k.append({'property':P,'status':'fixed','commit':c,'what':'fixed: property=%s %s %s'%(P,c,w)}); json.dump(k,open(p,'w'),indent=1); open(p,'a').write('\n')
