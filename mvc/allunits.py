"""all proof units"""
import units
import solver
import newton
import plastic
import cellu
import gpu
import wrapu
import vtuu
import infou, safeu, cgu, stepu
