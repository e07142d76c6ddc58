"""Which driver decides which property, and how many cases it runs.

cases: number of generated cases of the quick tier (fixed, so a run is a
function of the code and VERIF_SEED); thorough multiplies it.
"""
VTK_LIBS = ["CommonCore", "CommonDataModel", "CommonExecutionModel", "FiltersGeneral", "sys"]

CHECKS = {}


def c(pid, src, cases, **kw):
    CHECKS[pid] = dict(src=src, cases=cases, **kw)

c("N01", "n01.cpp", 200000)
c("N02", "n02.cpp", 200000)
c("N03", "n03.cpp", 200000)
c("G01", "g01.cpp", 150000)
c("G02", "g02.cpp", 100000)
c("N04", "n04.cpp", 100000)
c("G03", "g03.cpp", 80000)
c("B01", "b01.cpp", 3000)
c("B02", "b02.cpp", 2500)
c("B03", "b03.cpp", 1500)
c("B04", "b04.cpp", 1500)
c("B05", "b05.cpp", 4000)
c("B06", "b06.cpp", 2000)
c("B07", "b07.cpp", 20000)
c("P01", "p01.cpp", 30000)
c("P03", "p03.cpp", 60000)
c("P05", "p05.cpp", 80000)
c("P02", "p02.cpp", 5000)
c("C02", "c02.cpp", 12000)
c("P04", "p04.cpp", 5000)
c("C06", "c06.cpp", 2200)
c("F01", "f01.cpp", 36000)
c("F03", "f03.cpp", 30000)
c("F02", "f02.cpp", 9000)
c("F04", "f04.cpp", 14000)
c("F05", "f05.cpp", 60000)
c("C01", "c01.cpp", 6000)
c("C03", "c03.cpp", 2400)
c("C04", "c04.cpp", 4000)
c("C05", "c05.cpp", 1200000)
c("V02", "v02.cpp", 8000, vtk=True, vtk_src=False, vtk_libs=VTK_LIBS)
c("V03", "v03.cpp", 6000, vtk=True, vtk_src=False, vtk_libs=VTK_LIBS)
c("V01", "v01.cpp", 1500, vtk=True, vtk_libs=VTK_LIBS)
