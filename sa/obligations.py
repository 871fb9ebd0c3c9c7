from . import ob_budget, ob_states, ob_solve, ob_sim, ob_tables, ob_chain, ob_spec, ob_effects, ob_groups  # noqa: F401
