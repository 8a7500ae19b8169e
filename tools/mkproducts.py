"""Writes spec/ProductTable.tla."""
ALL=['text','plain','cis','CIS','lowcis','numsource','gassp','lowgassp','raf','cf','numconv','cisgassp']
T=[('ASCII_Hyperpoints',10,['*.txt'],[]),
('Aeronet',10,['*.lev20','*.ONEILL_lev20','*.ONEILL_20','*.lev15','*.ONEILL_lev15','*.ONEILL_15','*All_Sites_Times*dat','*.all'],[]),
('Aerosol_CCI_L2',10,['*ESACCI-L2P_AEROSOL*'],[]),('Aerosol_CCI_L3',10,['*ESACCI-L3C_AEROSOL*nc'],[]),
('Caliop_L1',10,['CAL_LID_L1*hdf'],[]),('Caliop_L2',10,['CAL_LID_L2_05kmAPro*hdf'],[]),('Caliop_L2_NO_PRESSURE',10,['CAL_LID_L2_05kmAPro*hdf'],[]),
('CloudSat',10,['*_CS_*GRANULE*.hdf'],[]),('Cloud_CCI_L2',10,['*ESACCI-L2_CLOUD*'],[]),('Cloud_CCI_L3',10,['*ESACCI-L3C_CLOUD*nc','*ESACCI-L3U_CLOUD*nc'],[]),
('EarthCARE_MSI_ATL',10,['*%s*?h5'%s for s in 'ATL_CTH_2A ATL_EBD_2A ATL_FM__2A ATL_ICE_2A ATL_TC__2A ATL_AER_2A ATL_ALD_2A MSI_AOT_2A MSI_COP_2A MSI_CM__2A MSI_RGR_1C ATL_NOM_1B'.split()],[]),
('HadGEM_CONVSH',10,['[a-z]'*6+'[._][pamd][pamd]'+'[0-9]'*4+'*.nc'],[]),('HadGEM_PP',10,['*.pp'],[]),
('MODIS_L2',10,['*%s*.hdf'%s for s in 'MYD06_L2 MOD06_L2 MYD04_L2 MOD04_L2'.split()],[]),
('MODIS_L3',10,['*%s*.hdf'%s for s in 'MYD08_D3 MOD08_D3 MYD08_M3 MOD08_M3 MOD08_E3'.split()],[]),
('NCAR_NetCDF_RAF',20,['*.nc'],[c for c in ALL if c not in('gassp','lowgassp','raf','cisgassp')]),
('NetCDF_Gridded',10,['*.nc'],[]),
('cis',100,['*.nc'],[c for c in ALL if c not in('CIS','cis','cisgassp')]),
('abstract_Caliop',10,[],[])]
def t(s): return '<<'+', '.join(str(ord(c)) for c in s)+'>>'
out=['----------------------------- MODULE ProductTable ----------------------------','(* The products built in: their signatures as documented, and which NetCDF     *)','(* files the ones which look inside turn down. Made by tools/mkproducts.py.    *)','EXTENDS Product']
out.append('Contents == <<%s>>'%', '.join('"%s"'%c for c in ALL))
rows=[]
for n,p,s,r in T:
    out.append('\\* '+n+': '+'  '.join(s))
    out.append('P_%s == [name |-> %s, prio |-> %d, sigs |-> <<%s>>, rejects |-> <<%s>>, abstract |-> %s, parent |-> <<>>, inherit |-> FALSE]'%(n,t(n),p,', '.join('<<%s>>'%t(x) for x in s),', '.join('"%s"'%x for x in r),'TRUE' if n.startswith('abstract') else 'FALSE'))
out.append('Builtin == {%s}'%', '.join('P_'+x[0] for x in T))
FILES = ["CAL_LID_L2_05kmAPro-Prov-V3-01.2009-12-31T23-36-08ZN.hdf", "cal_lid_l2_05kmapro-x.HDF", "CAL_LID_L2_05kmAPro.hdf.ext", "xCAL_LID_L2_05kmAPro.hdf", "CAL_LID_L1-ValStage1-V3-01.hdf",
         "MYD06_L2.A2010.hdf", "MOD06_L2.hdf", "a_MYD04_L2_b.hdf", "mod04_l2.hdf", "MYD06_L2xhdf", "MYD08_D3.A.hdf", "MOD08_D3.hdf", "MYD08_M3.hdf", "MOD08_M3.hdf", "MOD08_E3.A.hdf", "MOD08_X3.hdf",
         "RF04.nc", "xglnwa.pm20070601.nc", "xglnwa_da2007.nc", "XGLNWA.PM20070601.NC", "xglnw.pm2007.nc", "xglnwa.px2007.nc", "xglnwa.pm200.nc", "2008-ESACCI-L2_CLOUD-CLD.nc", "ESACCI-L2_CLOUD",
         "20080612-ESACCI-L2P_AEROSOL-ALL.nc", "ESACCI-L3C_CLOUD-a.nc", "ESACCI-L3U_CLOUD-a.NC", "ESACCI-L3C_AEROSOL.nc", "ESACCI-L3X_AEROSOL.nc", "a.pp", "a.pp.gz", "a.txt", "A.TXT", "a.txt~", "atxt",
         "a.lev20", "a.ONEILL_lev20", "b.oneill_20", "a.lev15", "a.ONEILL_lev15", "b.ONEILL_15", "x_All_Sites_Times_y.dat", "a.all", "a.lev2", "2007_CS_2B_GRANULE_P.hdf", "2007_CS_2B_GRANUL_P.hdf",
         "ATL_CTH_2A.h5", "x_ATL_EBD_2A_x.h5", "ATL_FM__2A.h5", "ATL_ICE_2A.h5", "ATL_TC__2A.h5", "ATL_AER_2A.h5", "ATL_ALD_2A.h5", "MSI_AOT_2A.h5", "MSI_COP_2A.h5", "MSI_CM__2A.h5", "MSI_RGR_1C.H5", "ATL_NOM_1B.h5", "ATL_NOM_2B.h5",
         "a.nc", "A.NC", "a.nc.", "a.ncx", "nc", ".nc", "anc", "a.nc.n", "x", "x.txt.nc", "nc.txt"]
PATTERNS = ["*.nc", "a.nc", "*.txt", "*", "a*", "x*.nc", "?.nc", "A.N?", "[a-c].*", "*.n[a-d]", "[!a]*.nc", "CAL*", "*.hdf", "*nc", "*.nc.", "x"]
PLUGINS = ["Alpha", "Beta", "zeta", "MyProd", "_P", "Zed", "AbstractOne", "AbstractTwo", "abstract_three", "Abstract", "Kernels"]
KERNELS = ["my_kernel", "AKernel", "moments_too"]
for label, what in (('FileNames', FILES), ('Patterns', PATTERNS), ('PluginNames', PLUGINS), ('KernelNames', KERNELS)):
    out += ['\\* ' + '  '.join(repr(w)[1:-1] for w in what), '%s == <<%s>>' % (label, ', '.join(t(w) for w in what))]
out.append('='*77)
import os,sys
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','spec','ProductTable.tla'),'w').write('\n'.join(out)+'\n')
