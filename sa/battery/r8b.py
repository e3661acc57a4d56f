exec(open('/tmp/bat/r8.py').read()); V=[v for v in V if v[0] in('sink1','src2','dm2')]
