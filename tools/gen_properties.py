#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the wording stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
A="src/assembly.cpp";L="src/ell.cpp";H="src/homogenize.cpp";M="src/micro.cpp";S="src/solve.cpp";O="src/output.cpp";W="src/wrapper.cpp"
TESTS="The five tests run one 5x5(x5) or 10x10 unit cell with one loading direction and check only that the program ends; "

p("C01","Uniform-strain boundary displacements are imposed exactly on every grid",
 "For every 2D or 3D grid with at least two nodes per direction, every cell size and every macroscopic strain, imposing the strain gives every node on the cell's boundary the displacement strain times position (each engineering shear component contributes one half to each of its two directions) and leaves the displacement of every interior node as it was. No later step of the equilibrium solve (residual, stiffness, linear solve, update) changes the displacement of a boundary node.",
 ["inputs","configurations"],"all nx,ny,nz >= 2, all cell lengths, all strains, all boundary and interior nodes, all numbers of Newton/CG iterations",
 TESTS+"no test looks at a displacement, and cubic grids hide any mix-up of nx, ny and nz.",
 [A,L,S],[("set_displ","src/assembly.cpp:set_displ"),("zeroed residual on the boundary","src/assembly.cpp:assembly_rhs"),("identity rows","src/ell.cpp:ell_set_bc_2D/3D"),("update loop","src/solve.cpp:newton_raphson")],
 [("u","nodal displacements","include/micro.hpp")],["nodal displacement field after imposing a strain and after homogenize/output"])
p("C02","Integration-point strain is the gradient of the interpolated displacement",
 "For every grid, element, integration point and nodal displacement field, the strain computed at the point is the symmetric gradient (normal components first, then the engineering shears, xy or xy, xz, yz) of the bilinear/trilinear interpolation of that element's own corner displacements, evaluated at the point's +-1/sqrt(3) Gauss coordinates. In particular a displacement field that is affine over the cell yields exactly its constant strain at every integration point.",
 ["inputs","configurations"],"all grids, all elements, all 4/8 integration points, all displacement fields, all element sizes",
 TESTS+"no strain value is ever compared with anything; equal spacings hide swapped dx, dy, dz.",
 [A],[("strain-displacement operator","src/assembly.cpp:calc_bmat_3D, get_strain2D, get_strain3D"),("corner displacements","src/assembly.cpp:getElemDisp")])
p("C03","Elastic points obey isotropic Hooke's law and have no history",
 "Every integration point of a material that is not plastic (and every point in 2D, as plane strain) answers any strain with the isotropic linear elastic stress of the Young's modulus and Poisson ratio given for its material at construction. It reports itself as linear, and evaluating it neither reads nor changes any history variable.",
 ["inputs","configurations"],"all elastic moduli with -1<nu<1/2, all strains, all elements and points, both dimensions, all material slots",
 TESTS+"no stress is compared with Hooke's law, and both materials of the tests have the same elastic constants, so picking the wrong material is invisible.",
 [A,M],[("linear law","src/assembly.cpp:get_stress2D, get_stress3D"),("material selection","src/assembly.cpp:get_material"),("Lame constants","src/micro.cpp:micropp_t constructor")])
p("C04","Plastic points return admissible J2 states consistent with their history",
 "For every strain and every stored state (deviatoric plastic strain, non-negative hardening and accumulated plastic strain), the stress returned at a plastic point never lies outside the yield surface of its updated state and equals the elastic law applied to the strain minus the updated plastic strain. Plastic flow is deviatoric and along the trial deviatoric stress, and the accumulated plastic strain grows by sqrt(2/3) times the norm of the plastic strain increment, so it never decreases. If the trial state does not exceed the yield surface the history is unchanged and the response elastic, and the point is flagged nonlinear exactly when it yields.",
 ["inputs","histories"],"all strains, all deviatoric plastic strains and accumulated plastic strains reachable or not, all material constants with E>0, Sy>0, Ka>=0",
 TESTS+"no test checks yield admissibility, flow direction or consistency of the stored plastic strain with the stress.",
 [A],[("return mapping","src/assembly.cpp:plastic_step"),("deviator","src/assembly.cpp:get_dev_tensor"),("history read and write","src/assembly.cpp:get_stress3D")],
 [("eps_p, alpha","plastic strain and accumulated plastic strain per integration point","include/micro.hpp INT_VARS_GP")])
p("C05","Each integration point's history is touched only by that point",
 "Evaluating stresses, the residual, the stiffness, averages, element fields or a whole equilibrium solve never changes the committed history of any integration point. The trial history produced at an integration point depends only on that point's own strain and own committed history and is stored in that point's own slot, so no two points of any grid share storage and the trial history of all other points is preserved.",
 ["inputs","configurations","histories"],"all grids, all elements and points, all evaluation entry points, all displacement fields",
 TESTS+"history is written to a file nobody reads; overlapping slots would only show for particular elements of non-cubic grids.",
 [A,S,"include/micro.hpp"],[("slot numbering","include/micro.hpp:intvar_ix, glo_elem3D"),("read old, write new","src/assembly.cpp:get_stress3D")],
 [("vars_old / vars_new","committed and trial history of the cell being solved","include/micro.hpp")])
p("C06","The residual is the assembled internal force, zero on fixed nodes",
 "For every grid and displacement field the residual at an interior node is minus the sum, over all elements sharing the node, of the volume integral (Gauss quadrature) of the strain operator transposed times the stress, and it is zero at every boundary node. The returned value is the Euclidean norm of the residual, and the nonlinear flag is raised if and only if at least one integration point of the cell yields.",
 ["inputs","configurations"],"all grids, all displacement fields, all histories, all interior and boundary degrees of freedom, any single yielding point",
 TESTS+"the residual is never inspected and a yielding layer always covers whole elements, so a flag lost at particular integration points is invisible.",
 [A],[("element internal force","src/assembly.cpp:get_elem_rhs2D, get_elem_rhs3D"),("scatter, boundary zeroing, norm","src/assembly.cpp:assembly_rhs")])
p("C07","Element stiffness integrates BtCB and is the exact elastic tangent",
 "For every element the stiffness matrix is the Gauss quadrature over the element of strain operator transposed, times material tangent, times strain operator. For elastic elements it is symmetric, gives no force under rigid translation, and is exactly the derivative of the element's internal force with respect to its displacements; for plastic points the material tangent is, column by column, the forward difference of the stress response for a perturbation of that strain component.",
 ["inputs","configurations"],"all elements, all element sizes, all elastic constants, all displacement fields and histories",
 TESTS+"a wrong tangent only slows Newton down and no test looks at iteration counts or matrix entries.",
 [A],[("element matrices","src/assembly.cpp:get_elem_mat2D, get_elem_mat3D"),("perturbed tangent","src/assembly.cpp:get_ctan_plast_pert")])
p("C08","Sparse rows address exactly the grid neighbours; the product is exact",
 "For every grid size and one to three unknowns per node, slot s of a matrix row refers to the column of the s-th node of the row node's 3x3 (3x3x3) neighbourhood, x fastest, for the same unknown order; slots of neighbours that do not exist refer to the valid column 0. The matrix-vector product gives, for every row, the sum over its slots of coefficient times the addressed entry, and changes nothing but the result vector.",
 ["inputs","configurations"],"all grid sizes >= 2 per direction, 1..3 unknowns per node, all rows and slots, all coefficients and vectors",
 TESTS+"only two grid shapes are built and no column index is checked; wrong neighbours on edges and faces are masked by the boundary conditions.",
 [L],[("structure","src/ell.cpp:ell_init_2D, ell_init_3D"),("product","src/ell.cpp:ell_mvp_2D")])
p("C09","Assembly adds every element entry at its own matrix position only",
 "Adding an element matrix adds each of its entries to the coefficient coupling that entry's row node and unknown with its column node and unknown, and changes no other coefficient. Global stiffness assembly starts from zero and therefore holds, before boundary conditions, exactly the sum of all element matrices, each added once.",
 ["inputs","configurations"],"all grids, all elements, all element matrices, 1..3 unknowns per node, all coefficients",
 TESTS+"no coefficient of the assembled matrix is inspected, and with identical elements on a cubic grid most misplacements keep the solver converging.",
 [L,A],[("scatter","src/ell.cpp:ell_add_struct2D, ell_add_struct3D"),("clear","src/ell.cpp:ell_set_zero_mat"),("driver","src/assembly.cpp:assembly_mat")])
p("C10","Dirichlet elimination gives identity rows and decoupled columns",
 "For every grid size and one to three unknowns per node, applying the boundary conditions to the matrix turns the row of every boundary unknown into an identity row and sets to zero, in every interior row, the coefficients of all boundary nodes. Every coefficient coupling two interior nodes keeps its value.",
 ["inputs","configurations"],"all grid sizes >= 2 per direction, 1..3 unknowns per node, all rows and slots, all previous coefficients",
 TESTS+"leftover couplings to fixed nodes are multiplied by zero displacements in the solver, so no run shows them.",
 [L],[("boundary rows and columns","src/ell.cpp:ell_set_bc_2D, ell_set_bc_3D")])
p("C11","The linear solver reports the true residual and keeps fixed unknowns",
 "For every matrix, right-hand side and initial guess (exact arithmetic), a linear solve that stops before its iteration limit returns a solution whose residual norm is the reported error and is below the tolerance, and the reported iteration count never exceeds the limit. Matrix and right-hand side are unchanged, null arguments are rejected with a non-zero code and no effect, and an unknown with an identity row, zero right-hand side and zero initial guess stays exactly zero. The cell's own solve runs it on the cell's matrix and residual, from the given correction, with a positive iteration limit and a positive tolerance.",
 ["inputs"],"all matrices with the grid structure, all right-hand sides, all initial guesses, all iteration counts",
 TESTS+"neither the residual of the linear system nor the reported error is checked.",
 [L,S],[("conjugate gradients","src/ell.cpp:ell_solve_cgpd_2D, ell_solve_cgpd_struct"),("driver","src/solve.cpp:solve")])
p("C12","Newton iteration is bounded and reports what it did",
 "Every equilibrium solve ends after at most 40 linear solves, and the reported iteration count is the number of linear solves performed. It ends before the limit only when the residual norm does not exceed the tolerance 1e-5, the reported error is the last evaluated residual norm, and the reported nonlinear flag belongs to that same evaluation.",
 ["inputs","histories"],"all strains, histories and materials, including non-converging ones",
 TESTS+"iteration counts and errors go to a file nobody reads, and every test converges in a few steps.",
 [S],[("iteration","src/solve.cpp:newton_raphson")])
p("C13","Average stress, average strain and element fields are volume averages",
 "For every grid and all cell lengths in 2D and 3D, the average stress and strain of the cell are the quadrature-weighted sums of the integration-point values over all elements divided by the volume (area in 2D) of the cell, and the element fields are the same sums over one element divided by its volume. A uniform field is therefore returned as itself.",
 ["inputs","configurations"],"all grids, all cell lengths, all displacement fields and histories",
 TESTS+"all of them use a unit cell, where dividing by the wrong volume is invisible.",
 [A],[("averages","src/assembly.cpp:calc_ave_stress, calc_ave_strain"),("element fields","src/assembly.cpp:calc_fields")])
p("C14","Homogenised response uses only the Gauss point's own strain and history",
 "For every set of macroscopic Gauss points, homogenisation gives each one the average stress of the cell in equilibrium under its own strain starting from its own committed history (zero if it never yielded), and a tangent whose column i is the forward difference of that response for a perturbation of strain component i. A point that never yielded and passes the linear screening (first invariant of its linear stress below the tolerance in magnitude) gets instead the linear cell tangent and its product with the strain. The linear tangent is, column by column, the stress response of the virgin cell to a unit of that strain component.",
 ["inputs","histories"],"all numbers of Gauss points, all registration orders, all strains and histories, points that yielded and points that did not in any mix",
 TESTS+"one or two Gauss points with identical strain; no stress or tangent is compared.",
 [H],[("homogenisation loop","src/homogenize.cpp:homogenize"),("screening","src/homogenize.cpp:is_linear, get_inv_1"),("linear tangent","src/homogenize.cpp:calc_ctan_lin")],
 [("gauss_list","per Gauss point: strain, stress, tangent, committed and trial history","include/micro.hpp:gp_t")])
p("C15","History advances only by explicit update, to exactly the last trial state",
 "Homogenising any number of times without an update leaves the committed history of every Gauss point unchanged. An update makes the committed history of each point that has ever yielded exactly the trial history of its most recent homogenisation (the state under its unperturbed strain), whether or not that last step yielded, and changes nothing else; points that never yielded stay virgin.",
 ["histories"],"all call sequences of set strain, homogenise, update and output, e.g. repeated homogenisations with changing strains between updates",
 TESTS+"always one homogenise followed by one update with growing strain; no unloading or repeated homogenisation before an update.",
 [H,O],[("trial storage","src/homogenize.cpp:homogenize"),("commit","src/homogenize.cpp:update_vars")],
 [("int_vars_n / int_vars_k","committed and trial history per Gauss point","include/micro.hpp:gp_t")])
p("C16","Gauss points are kept apart by id",
 "Setting a strain for an id creates that Gauss point if it does not exist and otherwise only replaces its strain, so there is at most one record per id and all other records keep every value. Reading stress, tangent or nonlinear state of an id returns that record's values (nonlinear if and only if it has a stored history), and reading an unknown id leaves the caller's buffer untouched (state: linear). A newly created record has defined (zero) results and no history.",
 ["inputs","histories"],"all sequences of ids, in any order, with repetitions and unknown ids",
 TESTS+"one or two ids in order, never re-read in another order, never an unknown id.",
 [H,M],[("registry","src/homogenize.cpp:set_macro_strain, get_macro_stress, get_macro_ctan"),("flag","src/micro.cpp:get_nl_flag")])
p("C17","Every element gets the phase at its centre and that phase's constants",
 "For every grid and cell size, an element belongs to the inclusion (second material) if and only if its centre lies strictly inside the sphere (circle in 2D) of the given radius around the cell centre, or, for layered cells, strictly below the layer height in y; otherwise it belongs to the first material. All computations for the element use the constants given at construction for that material.",
 ["inputs","configurations"],"all grids, cell lengths, radii and layer heights, all elements, both microstructure types, both dimensions",
 TESTS+"unit cells with equal spacing and materials with equal moduli; the phase map is never checked.",
 [M,A],[("phase map","src/micro.cpp:get_elem_type2D, get_elem_type3D, constructor loops"),("lookup","src/assembly.cpp:get_material")])
p("C18","Construction yields a fully defined virgin cell",
 "After construction, for all valid parameters, the grid spacing, cell lengths, material constants (Lame and bulk constants included) and linear screening tolerance are those of the arguments, the phase of every element is set, and the linear tangent is that of a cell with zero history. No later result depends on memory that was never initialised: initial displacements and histories are zero and no Gauss point is registered.",
 ["inputs","configurations"],"all valid sizes, cell parameters and materials, whatever the allocator returns",
 TESTS+"fresh memory of a small process is mostly zero, so uninitialised reads pass.",
 [M],[("constructor","src/micro.cpp:micropp_t::micropp_t")])
p("C19","No access outside an array and no leak for any grid",
 "For every grid with at least two nodes per direction (sizes whose matrix fits the index type) and every valid call, every array read and write of the library stays inside the array it addresses. Work arrays of a linear solve are released before it returns, and destroying the cell releases every array it or its Gauss points own exactly once.",
 ["inputs","configurations","histories"],"all grid sizes, all elements, nodes, slots and integration points, all numbers of Gauss points",
 TESTS+"a handful of sizes without sanitizers; degenerate (2 or 3 nodes) and non-cubic grids are not run.",
 [A,L,H,M,S,O],[("index arithmetic","all array accesses in src/"),("release","src/micro.cpp:~micropp_t, src/ell.cpp:ell_free, solver epilogues")])
p("C20","The VTU file describes the grid, its fields and its phases completely",
 "For every grid the VTU output lists exactly the declared number of points at their coordinates (x fastest), exactly the declared number of cells with their four or eight corner nodes in order, consistent offsets and cell types, one displacement and one residual vector per point, and one strain, stress, phase, plasticity and hardening entry per cell, each in grid order; plasticity and hardening are the means over the Gauss points of the norm of the committed plastic strain (shear components counted twice) and of the committed hardening variable, zero in 2D. Writing the file changes no state of the cell. Output of a known Gauss point writes one file, micropp_<gauss point>_<step>.vtu, showing that point's equilibrium under its macro strain from its committed history, and changes no Gauss point; output of an unknown one writes nothing.",
 ["inputs","configurations"],"all grids in 2D and 3D, all nodes and cells",
 TESTS+"files are written but never read back.",
 [O],[("writer","src/output.cpp:write_vtu"),("state shown","src/output.cpp:output")])
p("C21","The Fortran interface forwards every call unchanged",
 "Each Fortran-callable entry point acts on the most recently constructed cell exactly as the corresponding C++ operation would with the dereferenced arguments, hands results back in the caller's arrays, and has no other effect.",
 ["inputs"],"all argument values",
 TESTS+"one Fortran program calls five of the nine entry points once and prints.",
 [W],[("forwarders","src/wrapper.cpp")])
p("C22","The logs record every step of every Gauss point and lose nothing",
 "Constructing a cell starts the three logs (micropp_convergence.dat, micropp_eps_sig_ctan.dat, micropp_int_vars_n.dat) empty. For every number of Gauss points each logging call keeps what the logs hold and appends exactly one line of data to each; the first call of a cell, and only that one, puts a comment header in front in the first two, listing the identifiers of the points in order. A line has one group per Gauss point, in order, each closed by a bar: in the first log the nonlinear state, the recorded invariant and the iteration count and error of each of the 1+3 (2D) or 1+6 (3D) solves; in the second the 6 strain, 6 stress and 36 tangent entries of the record; in the third all committed history variables, or zeros for a point without history. Logging changes nothing else of the cell or its points.",
 ["inputs","histories"],"all numbers of Gauss points, with and without history, all sequences of calls, several cells one after the other, both dimensions",
 TESTS+"the logs are written but never read back.",
 [O,M],[("writer","src/output.cpp:write_info_files"),("start","src/micro.cpp:micropp_t::micropp_t")])
p("C23","Every conjugate gradient iteration is an exact, conjugate, downhill step",
 "For every symmetric positive definite matrix of a structured grid, right-hand side and starting guess (in exact arithmetic), each iteration of both conjugate gradient solvers moves the solution along one direction by exactly the step that minimises the energy x.Ax/2 - b.x on that line. The first direction is the residual divided by the diagonal of the matrix, every later one is such a residual plus a multiple of the previous direction, conjugate to it; each direction goes downhill (its product with the residual is that of the residual with the preconditioned residual), so the energy falls in every iteration until the tolerance is met.",
 ["inputs"],"all grids, matrices, right-hand sides, guesses and iterations, one to three fields per node, both solvers",
 TESTS+"a solver that takes worse steps still ends, only later or at its limit, and no test looks at the iterates.",
 [L],[("2D solver","src/ell.cpp:ell_solve_cgpd_2D"),("general solver","src/ell.cpp:ell_solve_cgpd_struct")])
p("C24","Every equilibrium correction solves the current system and is applied in full",
 "In every iteration of every equilibrium solve the linear solver is given the residual and the stiffness matrix assembled, unchanged, at the displacement reached so far and the committed history, and the correction it returns is added once and in full to the displacement of every node. The displacement changes in no other way, so a solve ends at its starting displacement plus the sum of its corrections.",
 ["inputs","histories"],"all strains, histories, materials and iterations, converging or not",
 TESTS+"an iteration with a stale matrix or a damped correction still converges on their small strains.",
 [S],[("iteration","src/solve.cpp:newton_raphson"),("linear solve","src/solve.cpp:solve")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
