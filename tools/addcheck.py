import json,sys
import os; p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','checks','checks.json'); d=json.load(open(p)); i=sys.argv[1]; d[i]={"sources":[i+".cpp"],**(json.loads(sys.argv[2]) if len(sys.argv)>2 else {})}; json.dump(d,open(p,'w'),indent=1)
