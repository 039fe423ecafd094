na={}
def n(id,title,statement,text,files,mech,observe,reason):
    p(id,title,statement,['inputs'],text,'Tests try no or few values of it.',files,mech,observe); na[id]=reason
n('C32','Earth constants are those of WGS84',
 'The ellipsoid constants and the gravity they give at a latitude are those of WGS84.',
 'all latitudes',[G],[('WGS84 attributes and g0',G)],['attributes and returned value'],
 'constants and a closed formula: nothing nondeterministic, nothing that can fail; a table lookup decides it, not a simulation (the constants that matter for entity states are exercised by C15)')
