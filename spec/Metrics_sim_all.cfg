CONSTANTS Setups = {"orders", "types", "orders_hist", "orders_gauge", "limit1", "limit2", "limit_hist", "limit_gauge", "limit_view", "orders_gauge", "limit_gauge", "late", "v_none", "late", "orders_gauge", "obs", "obs_cum", "kinds", "kinds2", "obs", "obs_cum", "obs_two", "obs_mix", "obs_low", "obs_dup", "hist_edge", "hist_views", "hist_sum", "hist_f", "hist_u", "v_rename", "v_filter", "v_none", "v_two", "v_drop", "v_scope", "v_wild", "v_unit", "ident", "again", "late", "bad", "badhist"}
CONSTANTS MaxOps = 100000 SimLen = 40
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
