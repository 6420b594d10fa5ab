"""The repository's own demo programs as workloads: every evolution they start runs under the trace monitor (shortened)."""
import os
import runpy
import shutil
import sys
import tempfile

import netomaton as ntm

from .core import REPO, Inconclusive, Violation
from .trace import Evo, judge

QUICK = """elementary_ca/elementary_ca_demo collatz_conjecture/collatz_conjecture_demo
continuous_time_models/diffusion_demo continuous_time_models/single_spring_netomaton_demo
continuous_time_models/wave_equation_demo finite_state_machine/finite_state_machine_demo
functional_network_automata/functional_network_automata_demo logistic_map/logistic_map_demo
logistic_map/logistic_map_demo2 lorenz_attractor/lorenz_attractor_demo perturbation_demo/perturbation_eca_demo
perturbation_demo/perturbation_reversible_demo pushdown_automata/pushdown_automata_demo
random_attachment_model/random_attachment_model_demo randomly_growing_network/randomly_growing_network_demo1
restricted_network_automata/restricted_network_automata_demo reversible_ca/rule214R_demo
substitution_systems/substitution_system_demo1 substitution_systems/substitution_system_demo6
lindenmayer_systems/koch_curve_demo turing_machine/turing_machine_demo1 turing_machine/turing_machine_demo2
wolfram_physics/wolfram_physics_demo hexagonal_ca/hexagonal_ca_demo""".split()
MORE = """animation_demo/animation_demo asynchronous_automata/asynchronous_automata_demo
ca_density_classification/ca_density_classification_demo collatz_conjecture/collatz_conjecture_demo2
continuous_automata/continuous_automata_demo continuous_time_models/burgers_equation_demo
continuous_time_models/linear_convection_demo continuous_time_models/nonlinear_convection_demo
continuous_time_models/simple_diffusion_demo evolving_networks/evolving_networks_demo
fredkin_self_replicating_ca/fredkin_self_replicating_ca_vonneumann_demo game_of_life/game_of_life_demo
logistic_map/logistic_map_demo3 lorenz_attractor/lorenz_attractor_demo2 optimizing_particle_swarms/pso_demo
optimizing_particle_swarms/pso_local_demo perturbation_demo/perturbation_demo
randomly_growing_network/randomly_growing_network_demo2 reversible_ca/reversible_ca_demo
reversible_ca/rule122R_entropy_demo reversible_ca/rule122R_reverse_demo
small_world_density_classification/small_world_density_classification_demo
substitution_systems/substitution_system_demo2 substitution_systems/substitution_system_demo3
substitution_systems/substitution_system_demo4 substitution_systems/substitution_system_demo5
substitution_systems/substitution_system_demo7 lindenmayer_systems/fractal_plant_demo
lindenmayer_systems/fractal_tree_demo lindenmayer_systems/sierpinski_triangle_demo
totalistic_ca/totalistic_ca_demo totalistic_ca2d/totalistic_2d_demo turing_machine/turing_machine_demo1b
turing_machine/turing_machine_demo2b turing_machine/turing_machine_demo2c sandpiles/sandpile_demo
wireworld/wireworld_diodes_demo wireworld/wireworld_xor_demo flocking/flocking_demo
langtons_lambda/rule_table_demo""".split()
THOROUGH = QUICK + MORE
PLOTS = ["plot_activities", "plot_grid", "plot_grid_multiple", "animate_activities", "animate_plot1D", "plot_network",
         "animate_network", "plot1D", "poincare_plot", "bifurcation_plot", "plot_degree_distribution", "plot_L_system",
         "animate_L_system", "plot_hex_grid", "animate_hex"]


class _Stop(BaseException):
    pass


def section(props):
    def fn(case):
        run_demo(case, THOROUGH[case.idx], props)
    return fn


def run_demo(case, name, props, on_evolve=None):
    src = os.path.join(REPO, "demos", name + ".py")
    work = tempfile.mkdtemp(prefix="demo", dir=os.environ.get("NTMON_SCRATCH"))
    saved = {p: getattr(ntm, p) for p in PLOTS + ["evolve"]}
    real = ntm.evolve
    cwd = os.getcwd()
    count = [0]
    pending = []

    def monitored(network, initial_conditions=None, activity_rule=None, timesteps=None, input=None, topology_rule=None,
                  perturbation=None, past_conditions=None, update_order=ntm.UpdateOrder.ACTIVITIES_FIRST,
                  copy_network=True, compression=False, persist_activities=True, persist_network=True, memoize=False,
                  memoization_key=None):
        count[0] += 1
        n = max(len(network), 1)
        cap = max(3, min(40, (600000 if case.deep else 150000) // (n * n)))
        if timesteps is not None:
            timesteps = min(timesteps, cap)
        if input is not None:
            if callable(input):
                orig = input
                input = lambda t, a, nn: None if t >= cap else orig(t, a, nn)
            else:
                input = input[:cap]
        evo = Evo(network, initial_conditions, rule=activity_rule, timesteps=timesteps, input=input, topo=topology_rule,
                  pert=perturbation, past=past_conditions, order=update_order, copy_network=copy_network,
                  compression=compression, pa=persist_activities, pn=persist_network, inplace=not copy_network)
        try:
            ntm.evolve = real
            if on_evolve:
                on_evolve(case, evo, memoize, memoization_key)
            else:
                evo.run()
                judge(case, evo, props)
        except (Violation, Inconclusive) as e:
            pending.append(e)
            raise _Stop()
        except Exception as e:
            pending.append(e)
            raise _Stop()
        finally:
            ntm.evolve = monitored
        if count[0] >= (12 if case.deep else 3):
            raise _Stop()
        return evo.traj

    try:
        for f in os.listdir(os.path.dirname(src)):
            p = os.path.join(os.path.dirname(src), f)
            if os.path.isfile(p) and os.path.getsize(p) < 2000000:
                shutil.copy(p, work)
        os.chdir(work)
        ntm.evolve = monitored
        for p in PLOTS:
            setattr(ntm, p, lambda *a, **k: None)
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            runpy.run_path(os.path.join(work, os.path.basename(src)), run_name="__main__")
        except _Stop:
            pass
        except Exception as e:
            # the demo's own plotting of a shortened evolution may fail; that decides nothing
            case.event("demo-tail-failed")
        finally:
            sys.stdout.close()
            sys.stdout = so
    finally:
        os.chdir(cwd)
        for p, v in saved.items():
            setattr(ntm, p, v)
        shutil.rmtree(work, ignore_errors=True)
    if pending:
        raise pending[0]
    if count[0] == 0:
        case.event("demo-without-evolution")
    case.event("demo-evolutions", count[0])
    case.state(name, count[0])
