----------------------------- MODULE ProductTable ----------------------------
(* The products built in: their signatures as documented, and which NetCDF     *)
(* files the ones which look inside turn down. Made by tools/mkproducts.py.    *)
EXTENDS Product
Contents == <<"text", "plain", "cis", "CIS", "lowcis", "numsource", "gassp", "lowgassp", "raf", "cf", "numconv", "cisgassp">>
\* ASCII_Hyperpoints: *.txt
P_ASCII_Hyperpoints == [name |-> <<65, 83, 67, 73, 73, 95, 72, 121, 112, 101, 114, 112, 111, 105, 110, 116, 115>>, prio |-> 10, sigs |-> <<<<<<42, 46, 116, 120, 116>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Aeronet: *.lev20  *.ONEILL_lev20  *.ONEILL_20  *.lev15  *.ONEILL_lev15  *.ONEILL_15  *All_Sites_Times*dat  *.all
P_Aeronet == [name |-> <<65, 101, 114, 111, 110, 101, 116>>, prio |-> 10, sigs |-> <<<<<<42, 46, 108, 101, 118, 50, 48>>>>, <<<<42, 46, 79, 78, 69, 73, 76, 76, 95, 108, 101, 118, 50, 48>>>>, <<<<42, 46, 79, 78, 69, 73, 76, 76, 95, 50, 48>>>>, <<<<42, 46, 108, 101, 118, 49, 53>>>>, <<<<42, 46, 79, 78, 69, 73, 76, 76, 95, 108, 101, 118, 49, 53>>>>, <<<<42, 46, 79, 78, 69, 73, 76, 76, 95, 49, 53>>>>, <<<<42, 65, 108, 108, 95, 83, 105, 116, 101, 115, 95, 84, 105, 109, 101, 115, 42, 100, 97, 116>>>>, <<<<42, 46, 97, 108, 108>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Aerosol_CCI_L2: *ESACCI-L2P_AEROSOL*
P_Aerosol_CCI_L2 == [name |-> <<65, 101, 114, 111, 115, 111, 108, 95, 67, 67, 73, 95, 76, 50>>, prio |-> 10, sigs |-> <<<<<<42, 69, 83, 65, 67, 67, 73, 45, 76, 50, 80, 95, 65, 69, 82, 79, 83, 79, 76, 42>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Aerosol_CCI_L3: *ESACCI-L3C_AEROSOL*nc
P_Aerosol_CCI_L3 == [name |-> <<65, 101, 114, 111, 115, 111, 108, 95, 67, 67, 73, 95, 76, 51>>, prio |-> 10, sigs |-> <<<<<<42, 69, 83, 65, 67, 67, 73, 45, 76, 51, 67, 95, 65, 69, 82, 79, 83, 79, 76, 42, 110, 99>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Caliop_L1: CAL_LID_L1*hdf
P_Caliop_L1 == [name |-> <<67, 97, 108, 105, 111, 112, 95, 76, 49>>, prio |-> 10, sigs |-> <<<<<<67, 65, 76, 95, 76, 73, 68, 95, 76, 49, 42, 104, 100, 102>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Caliop_L2: CAL_LID_L2_05kmAPro*hdf
P_Caliop_L2 == [name |-> <<67, 97, 108, 105, 111, 112, 95, 76, 50>>, prio |-> 10, sigs |-> <<<<<<67, 65, 76, 95, 76, 73, 68, 95, 76, 50, 95, 48, 53, 107, 109, 65, 80, 114, 111, 42, 104, 100, 102>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Caliop_L2_NO_PRESSURE: CAL_LID_L2_05kmAPro*hdf
P_Caliop_L2_NO_PRESSURE == [name |-> <<67, 97, 108, 105, 111, 112, 95, 76, 50, 95, 78, 79, 95, 80, 82, 69, 83, 83, 85, 82, 69>>, prio |-> 10, sigs |-> <<<<<<67, 65, 76, 95, 76, 73, 68, 95, 76, 50, 95, 48, 53, 107, 109, 65, 80, 114, 111, 42, 104, 100, 102>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* CloudSat: *_CS_*GRANULE*.hdf
P_CloudSat == [name |-> <<67, 108, 111, 117, 100, 83, 97, 116>>, prio |-> 10, sigs |-> <<<<<<42, 95, 67, 83, 95, 42, 71, 82, 65, 78, 85, 76, 69, 42, 46, 104, 100, 102>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Cloud_CCI_L2: *ESACCI-L2_CLOUD*
P_Cloud_CCI_L2 == [name |-> <<67, 108, 111, 117, 100, 95, 67, 67, 73, 95, 76, 50>>, prio |-> 10, sigs |-> <<<<<<42, 69, 83, 65, 67, 67, 73, 45, 76, 50, 95, 67, 76, 79, 85, 68, 42>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* Cloud_CCI_L3: *ESACCI-L3C_CLOUD*nc  *ESACCI-L3U_CLOUD*nc
P_Cloud_CCI_L3 == [name |-> <<67, 108, 111, 117, 100, 95, 67, 67, 73, 95, 76, 51>>, prio |-> 10, sigs |-> <<<<<<42, 69, 83, 65, 67, 67, 73, 45, 76, 51, 67, 95, 67, 76, 79, 85, 68, 42, 110, 99>>>>, <<<<42, 69, 83, 65, 67, 67, 73, 45, 76, 51, 85, 95, 67, 76, 79, 85, 68, 42, 110, 99>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* EarthCARE_MSI_ATL: *ATL_CTH_2A*?h5  *ATL_EBD_2A*?h5  *ATL_FM__2A*?h5  *ATL_ICE_2A*?h5  *ATL_TC__2A*?h5  *ATL_AER_2A*?h5  *ATL_ALD_2A*?h5  *MSI_AOT_2A*?h5  *MSI_COP_2A*?h5  *MSI_CM__2A*?h5  *MSI_RGR_1C*?h5  *ATL_NOM_1B*?h5
P_EarthCARE_MSI_ATL == [name |-> <<69, 97, 114, 116, 104, 67, 65, 82, 69, 95, 77, 83, 73, 95, 65, 84, 76>>, prio |-> 10, sigs |-> <<<<<<42, 65, 84, 76, 95, 67, 84, 72, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 69, 66, 68, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 70, 77, 95, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 73, 67, 69, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 84, 67, 95, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 65, 69, 82, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 65, 76, 68, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 77, 83, 73, 95, 65, 79, 84, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 77, 83, 73, 95, 67, 79, 80, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 77, 83, 73, 95, 67, 77, 95, 95, 50, 65, 42, 63, 104, 53>>>>, <<<<42, 77, 83, 73, 95, 82, 71, 82, 95, 49, 67, 42, 63, 104, 53>>>>, <<<<42, 65, 84, 76, 95, 78, 79, 77, 95, 49, 66, 42, 63, 104, 53>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* HadGEM_CONVSH: [a-z][a-z][a-z][a-z][a-z][a-z][._][pamd][pamd][0-9][0-9][0-9][0-9]*.nc
P_HadGEM_CONVSH == [name |-> <<72, 97, 100, 71, 69, 77, 95, 67, 79, 78, 86, 83, 72>>, prio |-> 10, sigs |-> <<<<<<91, 97, 45, 122, 93, 91, 97, 45, 122, 93, 91, 97, 45, 122, 93, 91, 97, 45, 122, 93, 91, 97, 45, 122, 93, 91, 97, 45, 122, 93, 91, 46, 95, 93, 91, 112, 97, 109, 100, 93, 91, 112, 97, 109, 100, 93, 91, 48, 45, 57, 93, 91, 48, 45, 57, 93, 91, 48, 45, 57, 93, 91, 48, 45, 57, 93, 42, 46, 110, 99>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* HadGEM_PP: *.pp
P_HadGEM_PP == [name |-> <<72, 97, 100, 71, 69, 77, 95, 80, 80>>, prio |-> 10, sigs |-> <<<<<<42, 46, 112, 112>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* MODIS_L2: *MYD06_L2*.hdf  *MOD06_L2*.hdf  *MYD04_L2*.hdf  *MOD04_L2*.hdf
P_MODIS_L2 == [name |-> <<77, 79, 68, 73, 83, 95, 76, 50>>, prio |-> 10, sigs |-> <<<<<<42, 77, 89, 68, 48, 54, 95, 76, 50, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 79, 68, 48, 54, 95, 76, 50, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 89, 68, 48, 52, 95, 76, 50, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 79, 68, 48, 52, 95, 76, 50, 42, 46, 104, 100, 102>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* MODIS_L3: *MYD08_D3*.hdf  *MOD08_D3*.hdf  *MYD08_M3*.hdf  *MOD08_M3*.hdf  *MOD08_E3*.hdf
P_MODIS_L3 == [name |-> <<77, 79, 68, 73, 83, 95, 76, 51>>, prio |-> 10, sigs |-> <<<<<<42, 77, 89, 68, 48, 56, 95, 68, 51, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 79, 68, 48, 56, 95, 68, 51, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 89, 68, 48, 56, 95, 77, 51, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 79, 68, 48, 56, 95, 77, 51, 42, 46, 104, 100, 102>>>>, <<<<42, 77, 79, 68, 48, 56, 95, 69, 51, 42, 46, 104, 100, 102>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* NCAR_NetCDF_RAF: *.nc
P_NCAR_NetCDF_RAF == [name |-> <<78, 67, 65, 82, 95, 78, 101, 116, 67, 68, 70, 95, 82, 65, 70>>, prio |-> 20, sigs |-> <<<<<<42, 46, 110, 99>>>>>>, rejects |-> <<"text", "plain", "cis", "CIS", "lowcis", "numsource", "cf", "numconv">>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* NetCDF_Gridded: *.nc
P_NetCDF_Gridded == [name |-> <<78, 101, 116, 67, 68, 70, 95, 71, 114, 105, 100, 100, 101, 100>>, prio |-> 10, sigs |-> <<<<<<42, 46, 110, 99>>>>>>, rejects |-> <<>>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* cis: *.nc
P_cis == [name |-> <<99, 105, 115>>, prio |-> 100, sigs |-> <<<<<<42, 46, 110, 99>>>>>>, rejects |-> <<"text", "plain", "lowcis", "numsource", "gassp", "lowgassp", "raf", "cf", "numconv">>, abstract |-> FALSE, parent |-> <<>>, inherit |-> FALSE]
\* abstract_Caliop: 
P_abstract_Caliop == [name |-> <<97, 98, 115, 116, 114, 97, 99, 116, 95, 67, 97, 108, 105, 111, 112>>, prio |-> 10, sigs |-> <<>>, rejects |-> <<>>, abstract |-> TRUE, parent |-> <<>>, inherit |-> FALSE]
Builtin == {P_ASCII_Hyperpoints, P_Aeronet, P_Aerosol_CCI_L2, P_Aerosol_CCI_L3, P_Caliop_L1, P_Caliop_L2, P_Caliop_L2_NO_PRESSURE, P_CloudSat, P_Cloud_CCI_L2, P_Cloud_CCI_L3, P_EarthCARE_MSI_ATL, P_HadGEM_CONVSH, P_HadGEM_PP, P_MODIS_L2, P_MODIS_L3, P_NCAR_NetCDF_RAF, P_NetCDF_Gridded, P_cis, P_abstract_Caliop}
\* CAL_LID_L2_05kmAPro-Prov-V3-01.2009-12-31T23-36-08ZN.hdf  cal_lid_l2_05kmapro-x.HDF  CAL_LID_L2_05kmAPro.hdf.ext  xCAL_LID_L2_05kmAPro.hdf  CAL_LID_L1-ValStage1-V3-01.hdf  MYD06_L2.A2010.hdf  MOD06_L2.hdf  a_MYD04_L2_b.hdf  mod04_l2.hdf  MYD06_L2xhdf  MYD08_D3.A.hdf  MOD08_D3.hdf  MYD08_M3.hdf  MOD08_M3.hdf  MOD08_E3.A.hdf  MOD08_X3.hdf  RF04.nc  xglnwa.pm20070601.nc  xglnwa_da2007.nc  XGLNWA.PM20070601.NC  xglnw.pm2007.nc  xglnwa.px2007.nc  xglnwa.pm200.nc  2008-ESACCI-L2_CLOUD-CLD.nc  ESACCI-L2_CLOUD  20080612-ESACCI-L2P_AEROSOL-ALL.nc  ESACCI-L3C_CLOUD-a.nc  ESACCI-L3U_CLOUD-a.NC  ESACCI-L3C_AEROSOL.nc  ESACCI-L3X_AEROSOL.nc  a.pp  a.pp.gz  a.txt  A.TXT  a.txt~  atxt  a.lev20  a.ONEILL_lev20  b.oneill_20  a.lev15  a.ONEILL_lev15  b.ONEILL_15  x_All_Sites_Times_y.dat  a.all  a.lev2  2007_CS_2B_GRANULE_P.hdf  2007_CS_2B_GRANUL_P.hdf  ATL_CTH_2A.h5  x_ATL_EBD_2A_x.h5  ATL_FM__2A.h5  ATL_ICE_2A.h5  ATL_TC__2A.h5  ATL_AER_2A.h5  ATL_ALD_2A.h5  MSI_AOT_2A.h5  MSI_COP_2A.h5  MSI_CM__2A.h5  MSI_RGR_1C.H5  ATL_NOM_1B.h5  ATL_NOM_2B.h5  a.nc  A.NC  a.nc.  a.ncx  nc  .nc  anc  a.nc.n  x  x.txt.nc  nc.txt
FileNames == <<<<67, 65, 76, 95, 76, 73, 68, 95, 76, 50, 95, 48, 53, 107, 109, 65, 80, 114, 111, 45, 80, 114, 111, 118, 45, 86, 51, 45, 48, 49, 46, 50, 48, 48, 57, 45, 49, 50, 45, 51, 49, 84, 50, 51, 45, 51, 54, 45, 48, 56, 90, 78, 46, 104, 100, 102>>, <<99, 97, 108, 95, 108, 105, 100, 95, 108, 50, 95, 48, 53, 107, 109, 97, 112, 114, 111, 45, 120, 46, 72, 68, 70>>, <<67, 65, 76, 95, 76, 73, 68, 95, 76, 50, 95, 48, 53, 107, 109, 65, 80, 114, 111, 46, 104, 100, 102, 46, 101, 120, 116>>, <<120, 67, 65, 76, 95, 76, 73, 68, 95, 76, 50, 95, 48, 53, 107, 109, 65, 80, 114, 111, 46, 104, 100, 102>>, <<67, 65, 76, 95, 76, 73, 68, 95, 76, 49, 45, 86, 97, 108, 83, 116, 97, 103, 101, 49, 45, 86, 51, 45, 48, 49, 46, 104, 100, 102>>, <<77, 89, 68, 48, 54, 95, 76, 50, 46, 65, 50, 48, 49, 48, 46, 104, 100, 102>>, <<77, 79, 68, 48, 54, 95, 76, 50, 46, 104, 100, 102>>, <<97, 95, 77, 89, 68, 48, 52, 95, 76, 50, 95, 98, 46, 104, 100, 102>>, <<109, 111, 100, 48, 52, 95, 108, 50, 46, 104, 100, 102>>, <<77, 89, 68, 48, 54, 95, 76, 50, 120, 104, 100, 102>>, <<77, 89, 68, 48, 56, 95, 68, 51, 46, 65, 46, 104, 100, 102>>, <<77, 79, 68, 48, 56, 95, 68, 51, 46, 104, 100, 102>>, <<77, 89, 68, 48, 56, 95, 77, 51, 46, 104, 100, 102>>, <<77, 79, 68, 48, 56, 95, 77, 51, 46, 104, 100, 102>>, <<77, 79, 68, 48, 56, 95, 69, 51, 46, 65, 46, 104, 100, 102>>, <<77, 79, 68, 48, 56, 95, 88, 51, 46, 104, 100, 102>>, <<82, 70, 48, 52, 46, 110, 99>>, <<120, 103, 108, 110, 119, 97, 46, 112, 109, 50, 48, 48, 55, 48, 54, 48, 49, 46, 110, 99>>, <<120, 103, 108, 110, 119, 97, 95, 100, 97, 50, 48, 48, 55, 46, 110, 99>>, <<88, 71, 76, 78, 87, 65, 46, 80, 77, 50, 48, 48, 55, 48, 54, 48, 49, 46, 78, 67>>, <<120, 103, 108, 110, 119, 46, 112, 109, 50, 48, 48, 55, 46, 110, 99>>, <<120, 103, 108, 110, 119, 97, 46, 112, 120, 50, 48, 48, 55, 46, 110, 99>>, <<120, 103, 108, 110, 119, 97, 46, 112, 109, 50, 48, 48, 46, 110, 99>>, <<50, 48, 48, 56, 45, 69, 83, 65, 67, 67, 73, 45, 76, 50, 95, 67, 76, 79, 85, 68, 45, 67, 76, 68, 46, 110, 99>>, <<69, 83, 65, 67, 67, 73, 45, 76, 50, 95, 67, 76, 79, 85, 68>>, <<50, 48, 48, 56, 48, 54, 49, 50, 45, 69, 83, 65, 67, 67, 73, 45, 76, 50, 80, 95, 65, 69, 82, 79, 83, 79, 76, 45, 65, 76, 76, 46, 110, 99>>, <<69, 83, 65, 67, 67, 73, 45, 76, 51, 67, 95, 67, 76, 79, 85, 68, 45, 97, 46, 110, 99>>, <<69, 83, 65, 67, 67, 73, 45, 76, 51, 85, 95, 67, 76, 79, 85, 68, 45, 97, 46, 78, 67>>, <<69, 83, 65, 67, 67, 73, 45, 76, 51, 67, 95, 65, 69, 82, 79, 83, 79, 76, 46, 110, 99>>, <<69, 83, 65, 67, 67, 73, 45, 76, 51, 88, 95, 65, 69, 82, 79, 83, 79, 76, 46, 110, 99>>, <<97, 46, 112, 112>>, <<97, 46, 112, 112, 46, 103, 122>>, <<97, 46, 116, 120, 116>>, <<65, 46, 84, 88, 84>>, <<97, 46, 116, 120, 116, 126>>, <<97, 116, 120, 116>>, <<97, 46, 108, 101, 118, 50, 48>>, <<97, 46, 79, 78, 69, 73, 76, 76, 95, 108, 101, 118, 50, 48>>, <<98, 46, 111, 110, 101, 105, 108, 108, 95, 50, 48>>, <<97, 46, 108, 101, 118, 49, 53>>, <<97, 46, 79, 78, 69, 73, 76, 76, 95, 108, 101, 118, 49, 53>>, <<98, 46, 79, 78, 69, 73, 76, 76, 95, 49, 53>>, <<120, 95, 65, 108, 108, 95, 83, 105, 116, 101, 115, 95, 84, 105, 109, 101, 115, 95, 121, 46, 100, 97, 116>>, <<97, 46, 97, 108, 108>>, <<97, 46, 108, 101, 118, 50>>, <<50, 48, 48, 55, 95, 67, 83, 95, 50, 66, 95, 71, 82, 65, 78, 85, 76, 69, 95, 80, 46, 104, 100, 102>>, <<50, 48, 48, 55, 95, 67, 83, 95, 50, 66, 95, 71, 82, 65, 78, 85, 76, 95, 80, 46, 104, 100, 102>>, <<65, 84, 76, 95, 67, 84, 72, 95, 50, 65, 46, 104, 53>>, <<120, 95, 65, 84, 76, 95, 69, 66, 68, 95, 50, 65, 95, 120, 46, 104, 53>>, <<65, 84, 76, 95, 70, 77, 95, 95, 50, 65, 46, 104, 53>>, <<65, 84, 76, 95, 73, 67, 69, 95, 50, 65, 46, 104, 53>>, <<65, 84, 76, 95, 84, 67, 95, 95, 50, 65, 46, 104, 53>>, <<65, 84, 76, 95, 65, 69, 82, 95, 50, 65, 46, 104, 53>>, <<65, 84, 76, 95, 65, 76, 68, 95, 50, 65, 46, 104, 53>>, <<77, 83, 73, 95, 65, 79, 84, 95, 50, 65, 46, 104, 53>>, <<77, 83, 73, 95, 67, 79, 80, 95, 50, 65, 46, 104, 53>>, <<77, 83, 73, 95, 67, 77, 95, 95, 50, 65, 46, 104, 53>>, <<77, 83, 73, 95, 82, 71, 82, 95, 49, 67, 46, 72, 53>>, <<65, 84, 76, 95, 78, 79, 77, 95, 49, 66, 46, 104, 53>>, <<65, 84, 76, 95, 78, 79, 77, 95, 50, 66, 46, 104, 53>>, <<97, 46, 110, 99>>, <<65, 46, 78, 67>>, <<97, 46, 110, 99, 46>>, <<97, 46, 110, 99, 120>>, <<110, 99>>, <<46, 110, 99>>, <<97, 110, 99>>, <<97, 46, 110, 99, 46, 110>>, <<120>>, <<120, 46, 116, 120, 116, 46, 110, 99>>, <<110, 99, 46, 116, 120, 116>>>>
\* *.nc  a.nc  *.txt  *  a*  x*.nc  ?.nc  A.N?  [a-c].*  *.n[a-d]  [!a]*.nc  CAL*  *.hdf  *nc  *.nc.  x
Patterns == <<<<42, 46, 110, 99>>, <<97, 46, 110, 99>>, <<42, 46, 116, 120, 116>>, <<42>>, <<97, 42>>, <<120, 42, 46, 110, 99>>, <<63, 46, 110, 99>>, <<65, 46, 78, 63>>, <<91, 97, 45, 99, 93, 46, 42>>, <<42, 46, 110, 91, 97, 45, 100, 93>>, <<91, 33, 97, 93, 42, 46, 110, 99>>, <<67, 65, 76, 42>>, <<42, 46, 104, 100, 102>>, <<42, 110, 99>>, <<42, 46, 110, 99, 46>>, <<120>>>>
\* Alpha  Beta  zeta  MyProd  _P  Zed  AbstractOne  AbstractTwo  abstract_three  Abstract  Kernels
PluginNames == <<<<65, 108, 112, 104, 97>>, <<66, 101, 116, 97>>, <<122, 101, 116, 97>>, <<77, 121, 80, 114, 111, 100>>, <<95, 80>>, <<90, 101, 100>>, <<65, 98, 115, 116, 114, 97, 99, 116, 79, 110, 101>>, <<65, 98, 115, 116, 114, 97, 99, 116, 84, 119, 111>>, <<97, 98, 115, 116, 114, 97, 99, 116, 95, 116, 104, 114, 101, 101>>, <<65, 98, 115, 116, 114, 97, 99, 116>>, <<75, 101, 114, 110, 101, 108, 115>>>>
\* my_kernel  AKernel  moments_too
KernelNames == <<<<109, 121, 95, 107, 101, 114, 110, 101, 108>>, <<65, 75, 101, 114, 110, 101, 108>>, <<109, 111, 109, 101, 110, 116, 115, 95, 116, 111, 111>>>>
=============================================================================
