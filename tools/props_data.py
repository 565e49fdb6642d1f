WIP = ''
TLA = 'explicit TLA+ specification (TLC) + '

# ------------------------------------------------------------ behaviour tree engine
p('B01', 'Composite nodes run their children in order and combine their statuses',
  'On every tick, a sequence executes its children in order until one does not succeed and returns that status (success if none), a priority until one does not fail, and an or-node executes all of its children and succeeds unless every one failed; the remembering variants resume at the child that was running and otherwise start from the first. No child is skipped, repeated or executed after the composite has decided.',
  ['schedules', 'histories'], 'every tree shape, every sequence of child statuses and every number of ticks',
  'the tests tick a handful of fixed trees of leaves that always do the same thing; the composites with memory are never ticked twice',
  ['b3/composites/', 'b3/core/basenode.py', 'b3/core/behaviortree.py'],
  [('composite tick', 'b3/composites/*.py tick'), ('child execution', 'b3/core/basenode.py _execute')],
  tech=TLA + 'step-by-step trace validation of ticked trees',
  note='All trees of four families with up to 4 nodes and 2-3 ticks model-checked; hundreds of recorded executions of random forests validated event by event. Leaves are the environment.')
p('B02', 'Decorators and timed nodes keep their contract',
  'An inverter swaps success and failure and passes the other statuses on; a limiter stops executing its child after the allowed number of finished executions and then fails; the repeaters execute their child until the awaited status, a running or error status, or their allowed number of repetitions, and continue the count when resumed; a time limit fails only once it has been exceeded, a wait succeeds only then, and a decorator without a child reports an error. Every one of them returns one of the four statuses.',
  ['schedules', 'histories'], 'every tree, sequence of child statuses, loop bound, resumption point and passage of time',
  'no test of the suite ticks a limiter, repeater, time limit or wait; the full-robot runs use one decorator with one bound',
  ['b3/decorators/', 'b3/actions/', 'b3/core/basenode.py'],
  [('decorator tick', 'b3/decorators/*.py'), ('timed leaves', 'b3/actions/wait.py, b3/decorators/maxtime.py')],
  tech=TLA + 'step-by-step trace validation of ticked trees', note='As B01, with virtual time; the limiter is taken to count per opening, as the code does.')
p('B03', 'Node lifecycle callbacks and open-node bookkeeping are exact',
  'Every execution of a node goes enter, open (only if it was not open), tick, close (unless it is running), exit, properly nested in that of its parent; after a tick of the tree the nodes recorded as open are exactly those on the path of the running node, the recorded number of nodes is the number entered, and the tick returns the status of the root. State of one tree or one blackboard never shows in another.',
  ['schedules', 'histories', 'configurations'], 'every tree, tick history and interleaving of several trees and blackboards',
  'tests look at the status of one tick on one blackboard only',
  ['b3/core/basenode.py', 'b3/core/behaviortree.py', 'b3/core/tick.py', 'b3/core/blackboard.py'],
  [('_enter/_open/_tick/_close/_exit', 'b3/core/basenode.py'), ('open node diff', 'b3/core/behaviortree.py tick')],
  state=[('isOpen', 'open flag per blackboard, tree and node', 'b3/core/blackboard.py'), ('openNodes', 'nodes left open after the last tick', 'b3/core/behaviortree.py')],
  tech=TLA + 'step-by-step trace validation of ticked trees', note='As B01; every event of the five callbacks is compared with the only one the specification allows.')
p('B04', 'Blackboard scopes never leak and never lose a value',
  'A value stored in the blackboard under a key, tree and node is returned by every later read of exactly that scope until it is overwritten, is absent from every other scope, and reads of what was never stored give nothing. Incrementing adds to the stored number of that scope only.',
  ['histories'], 'every sequence of set, get and increment over every combination of base, tree and node scope',
  'the tests never store the same key in two scopes',
  ['b3/core/blackboard.py'], [('scope resolution', 'b3/core/blackboard.py _get_memory'), ('set/get/inc', 'b3/core/blackboard.py')],
  state=[('base, tm, nm', 'base, per-tree and per-node memory', 'b3/core/blackboard.py')],
  tech=TLA + 'exhaustive model plus trace validation of random operation histories', note='The isolation invariant is checked by TLC over all short histories of 2 keys, 2 trees, 2 nodes; recorded histories replay against it.')
p('B05', 'Execution accounting (ticks, successes, cost, log) is exact',
  'A node counts one tick for every execution and one success for every execution that succeeded; the cost of a sequence, priority or or-node is the sum of the costs of the children it executed in that tick, the total cost on the blackboard grows by the cost of every node executed, and the tree counts its ticks. The node log gets one line per finished execution, for successes only or for successes and failures as selected.',
  ['schedules', 'histories'], 'every tree, cost assignment, tick history and log setting',
  'no test inspects a counter after more than one tick',
  ['b3/core/basenode.py', 'b3/composites/', 'b3/core/behaviortree.py'],
  [('counters in _tick', 'b3/core/basenode.py'), ('cost sums', 'b3/composites/*.py')],
  tech=TLA + 'step-by-step trace validation of ticked trees', note='As B01; counters compared after every tick of the tree.')
p('B06', 'Saving and loading a behaviour tree preserves it',
  'Saving a tree records every reachable node once with its class, title, description, properties and its children in order, and lists exactly the node classes the engine does not provide, with their category; loading such a record gives a tree of the same classes, fields and child order, where an empty field of the record leaves the tree or the node the value it has of its own, and loading a class that is neither built in nor supplied is refused with the documented error. Saving a loaded tree gives the same record again.',
  ['inputs'], 'every tree and every well-formed record', 'saving and loading are not tested at all',
  ['b3/core/behaviortree.py', 'b3/__init__.py'], [('dump', 'b3/core/behaviortree.py dump'), ('load', 'b3/core/behaviortree.py load')],
  tech=TLA + 'round trips of random trees validated against the specified document', note='Decorator parameters are not part of the record format (see DESIGN.md), so loaded trees use parameterless classes.')

# ------------------------------------------------------------ kinematics
p('K01', 'Forward kinematics is the product of the link transforms of the table',
  'For every mechanism table the symbolic forward kinematics is, entry by entry and for every joint value, the ordered product of the six link transforms with the rows of the table as twist, length, offset and angle. Evaluating it at numbers gives the position and orientation of that product.',
  ['inputs', 'configurations'], 'every mechanism table and every joint value',
  'the tests compare one symbolic matrix with a stored one; a wrong entry for another twist or table row goes unseen',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'],
  [('link transform', 'ikbtbasics/pykinsym.py Link_S'), ('forward_kinematics', 'ikbtbasics/kin_cl.py mechanism')],
  tech=TLA + 'results of the real code evaluated in TLA+ in an exact finite field', note='All robots of the table and random mechanisms; identity testing at random field points (false acceptance below 1 in 1000 per point).')
p('K02', 'The matrix equations derived for a robot are complete and true',
  'The list of matrix equations contains, for every number of link transforms moved to the other side that the method provides for, an equation with exactly those transforms inverted on the pose side and the remaining product on the joint side. Every one of them holds identically when the pose is the one the forward kinematics gives.',
  ['inputs', 'configurations'], 'every mechanism table, every joint value, every pose',
  'the tests check the number of equations and a few entries for one arm',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/ik_classes.py', 'ikbtbasics/pykinsym.py'],
  [('get_mequation_set', 'ikbtbasics/kin_cl.py mechanism'), ('inverse of a transform', 'ikbtbasics/pykinsym.py')],
  tech=TLA + 'results of the real code evaluated in TLA+ in an exact finite field', note='As K01; completeness is judged at a free pose matrix, truth at the forward-kinematics pose.')
p('K03', 'The Jacobian is the derivative of the pose with respect to the joints',
  'The Jacobian reported for a mechanism has, for every revolute joint, the axis of that joint as angular part and the velocity of the end frame turning about it as linear part, and for every prismatic joint the axis as linear part and zero angular part, expressed in the end frame.',
  ['inputs', 'configurations'], 'every mechanism table with every mixture of joint types and every joint value',
  'no test looks at a Jacobian', ['ikbtbasics/kin_cl.py'], [('velocity propagation', 'ikbtbasics/kin_cl.py mechanism.forward_kinematics'), ('ManipJacobian_S', 'ikbtbasics/pykinsym.py')],
  tech=TLA + 'results of the real code evaluated in TLA+ in an exact finite field', note='As K01.')
p('K04', 'Rigid-transform library functions compute what they are named for',
  'Each rotation, roll-pitch-yaw, translation, link and inverse-transform function of the library, in its symbolic and its numeric form, returns the homogeneous transform of that name; the angle wrapper returns the equal angle of the half-open principal turn, and the approximate comparison accepts exactly numbers within its tolerance.',
  ['inputs'], 'every angle, length and rigid transform', 'tests evaluate none of the numeric forms and few of the symbolic ones',
  ['ikbtbasics/pykinsym.py'], [('Rot*, RPY4, HInv, Link, wrap_angle', 'ikbtbasics/pykinsym.py')],
  tech=TLA + 'recorded calls evaluated in TLA+ in an exact finite field', note='Laws of the specified library checked exhaustively over small fields; calls of the real functions at random arguments.')
p('K05', 'The kinematics cache is transparent, refuses stale data, survives interruption',
  'A run that finds stored kinematics of its robot works with the same model, parameters, values, joint variables and equations as a run that computes them; stored kinematics whose table differs from the requested one stop the run before it produces a solution. Whatever instant a run is interrupted at while storing, the next run either uses complete results or computes them again, and runs under way at the same time do not disturb each other.',
  ['crash_points', 'histories', 'schedules', 'configurations'], 'every order and interleaving of runs, edits of the table and interruptions of a store',
  'tests always start with an empty cache or a finished one', ['ikbtbasics/ik_classes.py', 'ikSolver.py'],
  [('kinematics_pickle', 'ikbtbasics/ik_classes.py'), ('check_the_pickle', 'ikbtbasics/ik_classes.py')],
  state=[('cache file', 'per robot: absent, complete for a table, partial', 'fk_eqns/*.p')],
  tech=TLA + 'crash-point enumeration replayed on the real store', note='every file operation as point of interruption and of interleaving, sampled partial writes, random histories of three runs; file-level design refines the abstract store (TLC)')
p('K06', 'Every robot of the table is well formed and describes its own mechanism',
  'For every listed robot name the lookup gives a table of six rows with one joint type per row that agrees with where the joint variables appear, one unknown per joint variable carrying its joint number, and parameters that cover every other symbol of the table; an unknown name is refused. Looking a robot up twice, or after another robot, or after a run has changed what an earlier lookup gave, gives equal results.',
  ['configurations', 'histories'], 'every robot of the table, every order of lookups',
  'tests look up two or three of the 31 robots', ['ikbtfunctions/ik_robots.py'], [('robot_params', 'ikbtfunctions/ik_robots.py'), ('List', 'ikbtfunctions/ik_robots.py')],
  tech=TLA + 'recorded tables validated against the specification', note='every listed robot looked up alone in a new process, and random histories of lookups whose results are modified between')
p('K07', 'A solver run is deterministic',
  'Two runs of the solver on the same robot give the same solved unknowns in the same order, the same solution expressions, the same sets of solutions and the same generated files, whatever other robots were looked up before and whether or not the kinematics were stored.',
  ['histories', 'configurations'], 'every robot, every hash seed of the interpreter, cached or not',
  'the tests run with one hash seed and compare with expected values only', ['ikSolver.py', 'ikbtbasics/', 'ikbtleaves/'],
  [('ordering of equation lists', 'ikbtbasics/ik_classes.py erank'), ('sorted solution sets', 'ikbtbasics/ik_classes.py')],
  tech=TLA + 'pairs of recorded runs validated against the specification', note='pairs of runs with different hash seeds, earlier lookups and stored kinematics')

# ------------------------------------------------------------ solving
p('S01', 'Some solution row recovers the joints that produced the pose',
  'Whenever the solver reports a robot solved, then for every joint assignment, one of the solution rows evaluated at the pose of that assignment gives back that assignment, up to whole turns (mechanisms whose joints the pose does not determine excepted). The arms of the table the solver is known to solve (27 of the 31) are reported solved.',
  ['inputs', 'configurations'], 'every solvable mechanism and every joint assignment away from singular poses',
  'the tests compare one robot against stored solutions and evaluate none at a pose',
  ['ikSolver.py', 'ikbtleaves/', 'ikbtbasics/ik_classes.py', 'ikbtbasics/solutionGraphV3.py'],
  [('leaf solvers', 'ikbtleaves/*_solver.py'), ('solution versions', 'ikbtbasics/ik_classes.py make_LHS_versions')],
  tech=TLA + 'poses and evaluated solution rows of real runs validated by forward kinematics in TLA+', note='27 robots and 120 random mechanisms (thorough), at random poses away from singular ones; fixed-point tolerance 0.006')
p('S02', 'Every real-valued solution row reproduces the pose',
  'For every pose the mechanism can reach, every solution row whose values are all real is a joint assignment whose forward kinematics is that pose.',
  ['inputs', 'configurations'], 'every solvable mechanism, every row, every reachable non-singular pose',
  'no test evaluates a solution row', ['ikSolver.py', 'ikbtleaves/', 'ikbtbasics/ik_classes.py'],
  [('leaf solvers', 'ikbtleaves/*_solver.py'), ('solution versions', 'ikbtbasics/ik_classes.py make_LHS_versions')],
  tech=TLA + 'evaluated solution rows of real runs validated by forward kinematics in TLA+', note='27 robots and 120 random mechanisms (thorough), at random poses away from singular ones; fixed-point tolerance; listed robots keep spurious branches (known findings)')
p('S03', 'Unknowns are solved in a well-founded order and then frozen',
  'At every moment of a run, each solved unknown was solved exactly once, has a distinct position in the solving order, at least one solution, and solutions that mention only pose entries, parameters and unknowns solved before it. Once solved, an unknown keeps its solutions, and its number of solutions reported for the whole robot is the product over the unknowns it depends on.',
  ['schedules', 'histories'], 'every moment of every run of every mechanism', 'tests look at the end of single solver steps',
  ['ikbtbasics/kin_cl.py', 'ikbtbasics/ik_classes.py', 'ikbtleaves/'], [('set_solved', 'ikbtbasics/kin_cl.py unknown'), ('solution graph', 'ikbtbasics/ik_classes.py')],
  state=[('solved', 'unknowns solved so far with order and solutions', 'ikbtbasics/kin_cl.py unknown')],
  tech=TLA + 'trace validation of whole solver runs', note='runs of robots, random mechanisms and scripted methods; the design model covers all schedules up to 3 unknowns')
p('S04', 'The solution set pairs every branch combination exactly once, consistently',
  'The set of solutions of a solved robot has one row for every combination of branches of its unknowns, and each row gives every solved unknown exactly one version. The equation of a version is one branch of its unknown in which every earlier unknown is replaced by the version that stands in the same row, and no two rows agree in all branches.',
  ['inputs', 'configurations'], 'every dependency structure and every number of branches per unknown',
  'one test checks the rows of one arm', ['ikbtbasics/ik_classes.py', 'ikbtbasics/solutionGraphV3.py', 'ikbtfunctions/output_latex.py'],
  [('create_solution_set', 'ikbtbasics/ik_classes.py'), ('make_LHS_versions', 'ikbtbasics/ik_classes.py')],
  tech=TLA + 'solution sets of real runs and of synthetic dependency graphs validated against the specification', note='all dependency structures up to 3 (quick) or 4 unknowns, random larger ones, and real runs')
p('S05', 'Scalar equations are sorted by number of unknowns, none lost or doubled',
  'Scanning the matrix equations and the auxiliary equations gives three lists: the scalar equations with exactly one, exactly two and at least three unsolved unknowns (an unknown counts once for each side it is on); every scalar equation of the matrices with an unsolved unknown is in exactly the list of its count, so is every defining equation of a sum of angles with one or two unsolved unknowns, no list holds the same matrix equation twice, and each list is ordered by complexity. Equations without unsolved unknowns are dropped.',
  ['inputs', 'histories'], 'every set of equations and every set of solved unknowns', 'tests scan the equations of one or two robots once',
  ['ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py'], [('scan_for_equations', 'ikbtbasics/ik_classes.py Robot'), ('erank', 'ikbtbasics/ik_classes.py')],
  tech=TLA + 'recorded scans of real runs and of synthetic equation sets validated against the specification', note='scans of real runs and random equation sets')
p('S06', 'Every equation the solver works with is a true equation of the robot',
  'Every matrix, scalar and auxiliary equation that is derived, transformed, substituted or combined in the course of a run holds identically in the joint variables when the pose is the one the forward kinematics gives and each sum-of-angles variable is the sum it stands for.',
  ['inputs', 'histories', 'configurations'], 'every transformation step of every run, every joint value', 'tests compare a few transformed equations with expected text',
  ['ikbtleaves/sub_transform.py', 'ikbtleaves/sum_id.py', 'ikbtleaves/x2y2_transform.py', 'ikbtleaves/updateL.py', 'ikbtbasics/ik_classes.py'],
  [('substitution', 'ikbtleaves/sub_transform.py'), ('sum of angles', 'ikbtbasics/ik_classes.py, ikbtleaves/sum_id.py'), ('squared sums', 'ikbtleaves/x2y2_transform.py'), ('refresh', 'ikbtleaves/updateL.py')],
  tech=TLA + 'every equation of real runs evaluated in TLA+ in an exact finite field', note='all equations of real runs and of random transform sequences, at random points of a finite field (one-sided error below 1e-3 per equation)')
p('S07', 'Each single-unknown solver gives exactly the roots of its equations',
  'Whenever one of the solving methods accepts an equation (or pair of equations) for an unknown, every solution it returns satisfies the equations it was computed from wherever it is real (of the two branches of a tangent with a common unknown factor, one does), different solutions are different values, and one of them is the value of the unknown the equation was formed from. No solution mentions its own unknown or an unsolved one, other unknowns are left alone, plain equations of a method\'s form are accepted, and methods decline equations they cannot solve instead of failing.',
  ['inputs'], 'every equation of the accepted forms with every coefficient, and every equation that is not of these forms', 'the tests try some fixed equations per method',
  ['ikbtleaves/algebra_solver.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py'],
  [('identification and solving leaves', 'ikbtleaves/*.py')], tech=TLA + 'generated equations solved by the real code, roots validated in TLA+', note='random equations of and near the five forms, with and without decoys; root-counting laws over circles of finite fields')
p('S08', 'Between two solving methods the one with fewer solutions is kept',
  'When both the tangent method and the sine-or-cosine method solved the same unknown, the solution kept is the one with fewer branches; when they have equally many it is the one with fewer unknowns in its solution, and the tangent solution if that is equal too. If only one method solved it, that one is kept, and if none did, the unknown stays unsolved.',
  ['inputs', 'histories'], 'every pair of outcomes of the two methods', 'three tests rank three pairs', ['ikbtleaves/rank_leaf.py'], [('rank', 'ikbtleaves/rank_leaf.py')],
  tech=TLA + 'outcomes enumerated by TLC and replayed on the real ranking', note='all pairs of outcomes up to 2 against 5 versions plus all rankings of real runs')
p('S09', 'The search attends to unknowns fairly, in order, and within its limits',
  'In each pass the search works on the unsolved unknowns in their listed order, one per attempt, continuing after the last one attempted and never on an already solved one while an unsolved one waits ahead; it makes at most six attempts per pass and at most ten passes, refreshes the equations after each successful attempt, and stops when all unknowns are solved. An attempt tries the methods in a fixed order (algebra; tangent and sine-or-cosine, then ranking; simultaneous equations; sine and cosine; sum of squares) until one succeeds, and solves with a method only what that method has identified.',
  ['schedules', 'histories'], 'every number of unknowns and every sequence of successes and failures of the solving methods', 'tests run two arms end to end and look at the result',
  ['ikbtleaves/assigner_leaf.py', 'ikbtleaves/comp_detect.py', 'ikSolver.py', 'b3/'], [('assigner', 'ikbtleaves/assigner_leaf.py'), ('tree', 'ikSolver.py')],
  state=[('counter', 'index after the last unknown attempted', 'blackboard')], tech=TLA + 'trace validation of whole solver runs', note='runs of robots, random mechanisms and scripted methods; the design model covers all schedules up to 3 unknowns')
p('S10', 'A run reports success exactly when every unknown has been solved',
  'The search ends successfully only when every unknown, including those introduced for sums of angles, has a solution, and always then; a run that solved nothing or not everything ends normally, says so and reports nothing as a solution for the unknowns it did not solve.',
  ['inputs', 'schedules', 'configurations'], 'every mechanism, solvable or not', 'tests only run solvable arms', ['ikbtleaves/comp_detect.py', 'ikSolver.py', 'ikbtfunctions/output_latex.py'],
  [('comp_det', 'ikbtleaves/comp_detect.py')], tech=TLA + 'trace validation of whole solver runs', note='runs of robots, random mechanisms and scripted methods; the design model covers all schedules up to 3 unknowns')
p('S11', 'Sums of joint angles get one name each, and the same one everywhere',
  'A sum of joint angles found anywhere in the equations is replaced by one new unknown whose name and definition state exactly which angles it sums; the same sum always gets the same unknown, different sums different ones, and its defining equation is recorded once. Replacing it does not change the value of any equation.',
  ['inputs', 'histories'], 'every set of equations and every order in which sums are found', 'tests check one sum in one arm', ['ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py', 'ikbtleaves/sum_id.py'],
  [('sum_of_angles_transform', 'ikbtbasics/ik_classes.py'), ('sum_id', 'ikbtleaves/sum_id.py')], tech=TLA + 'registry states of real runs and synthetic equations validated against the specification', note='registries of real runs and random expressions; values at random points of a finite field')

# ------------------------------------------------------------ generated artefacts
p('G01', 'Generated Python code computes the solutions',
  'The Python program generated for a solved robot is valid, and its inverse kinematics returns, for every pose, the solution rows of the solver, each value the one its version\'s own equation gives; it reports a pose as unreachable when the argument of an arcsine or arccosine is outside its range there, and only then, and never returns rows when an equation has no real value.',
  ['programs', 'inputs'], 'every solved mechanism and every pose', 'generated code is never executed by a test', ['ikbtfunctions/output_python.py'], [('output_python_code', 'ikbtfunctions/output_python.py')],
  tech=TLA + 'generated programs executed and compared by TLA+ with the solution rows', level='model_checking', note='programs of table robots and random mechanisms executed at reachable and unreachable poses')
p('G02', 'Generated C++ code computes the solutions',
  'The C++ program generated for a solved robot compiles, and its inverse kinematics fills in, for every pose and every solution row, the value of every solved variable of that row as the solver\'s equations give it; it reports a pose as unreachable when the argument of an arcsine or arccosine is outside its range there, and only then.',
  ['programs', 'inputs'], 'every solved mechanism and every pose', 'generated code is never compiled by a test', ['ikbtfunctions/output_cpp.py'], [('output_cpp_code', 'ikbtfunctions/output_cpp.py')],
  tech=TLA + 'generated programs compiled, executed and compared by TLA+ with the solution rows', note='programs compiled with address and undefined-behaviour checks, executed at reachable and unreachable poses')
p('G03', 'The reports are well formed and state the model and every solution correctly',
  'The report generated for a robot is a well-formed document. It states the mechanism table, the forward kinematics and the Jacobian of the robot; the solution report also lists exactly the solved unknowns in solution order, gives for each of them every solution and every version of it by the right formula, the dependencies between unknowns, and exactly the rows of the solution set.',
  ['programs', 'inputs'], 'every mechanism, solved completely or in part', 'no test reads a report', ['ikbtfunctions/output_latex.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py', 'fkOnly.py'],
  [('output_latex_solution', 'ikbtfunctions/output_latex.py'), ('output_FK_equations', 'ikbtfunctions/output_latex.py'), ('kequation.LaTexOutput', 'ikbtbasics/kin_cl.py')],
  tech=TLA + 'generated reports accepted by a specified document automaton', note='every formula of the reports read back and evaluated')
p('G04', 'Generated forward-kinematics code computes the pose',
  'The Python forward-kinematics program generated for a robot is valid and computes, with the joint values and the parameters it asks for filled in, the pose of the mechanism.',
  ['programs', 'inputs'], 'every mechanism and every joint value', 'generated code is never executed by a test', ['ikbtfunctions/output_python.py', 'fkOnly.py'],
  [('output_FK_python_code', 'ikbtfunctions/output_python.py')],
  tech=TLA + 'generated programs executed and compared by TLA+ with the specified forward kinematics', note='programs of table robots and random mechanisms executed at random joint values')

# ------------------------------------------------------------ programs
p('P01', 'A run leaves the complete files of its own robot and touches no others',
  'Whatever runs of ikSolver.py and fkOnly.py came before in a working directory, or are under way there for other robots, finished or killed at any point: a run that ends normally leaves the stored kinematics of its robot and the files its program makes (solution report, Python and C++ code, when something was solved; forward-kinematics report and Python code), each with the contents it gets in a fresh directory, dates aside. Stored kinematics are whole or absent at every moment. No run creates, changes or removes another file, and a run for a name that is not in the robot table ends without writing anything. Without a name ikSolver.py works on Wrist and fkOnly.py on Raven-II.',
  ['histories', 'crash_points', 'schedules'], 'every history of runs of the two programs, every point at which one is killed and every interleaving with runs for other robots or of the other program',
  'no test runs a program twice in one directory, interrupts one, or looks at what it leaves',
  ['ikSolver.py', 'fkOnly.py', 'ikbtbasics/ik_classes.py', 'ikbtfunctions/output_latex.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_cpp.py', 'ikbtfunctions/ik_robots.py'],
  [('programs', 'ikSolver.py, fkOnly.py'), ('store', 'ikbtbasics/ik_classes.py kinematics_pickle'), ('writers', 'ikbtfunctions/output_*.py')],
  state=[('fk_eqns, LaTex, CodeGen', 'files of the working directory', 'ikbtfunctions/output_*.py')],
  tech=TLA + 'recorded histories of real runs, killed and suspended, validated against the specification', note='Every interleaving and interruption of two runs over two robots model-checked; recorded histories of forked runs with kills before file operations and in the middle of writes.')
