import sys,os; sys.path.insert(0,'/verif/lib'); import build,subprocess
exe=build.engineA('/verif/engineA/'+sys.argv[1]); 
os.execv(exe,[exe,"--cexdir","/tmp/eb"]+sys.argv[2:])
