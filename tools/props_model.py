C = "mimosa/components/"
CFG = ["configurations", "inputs"]


def P(id, title, statement, text, why, files, mech, over=CFG, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or ["constraints of the built model", "saved output CSV"]))


ALLCFG = ("every combination of damage, trade, transfer, welfare and objective modules, every value of every option, every "
          "region set and every time step of the horizon")
WHY = ("The unit tests build no model at all (only the MAC curve, parsers, nested dictionaries and smooth minimum are "
       "sampled); the model tests need a solver and compare a handful of default runs.")

PROPS = [
    P("M01", "Emissions add up from regions to cumulative totals",
      "Regional emissions are the baseline emissions times one minus the relative abatement (baseline data in the first period; the "
      "baseline follows the data series, or the data carbon intensity times net GDP when that option is on), and the reported "
      "reduction is baseline minus emissions. Global emissions are the sum over all regions and cumulative emissions start at "
      "zero and grow by the time step times global emissions (trapezoidal average when that option is on). "
      "Emissions relative to cumulative baseline emissions divide by the trapezoidal integral of the baseline data, and "
      "relative abatement stays between 0 and 2.5.",
      ALLCFG, WHY, [C + "emissions.py"],
      [("emission constraints", C + "emissions.py:get_constraints"), ("cumulative emissions", C + "emissions.py")]),
    P("M02", "Temperature follows cumulative emissions and respects the target",
      "At every time step temperature equals the initial temperature plus the transient climate response times cumulative "
      "emissions, and starts at the initial temperature. When a temperature target is set, temperature may not exceed it in "
      "any period from 2100 onwards; when it is switched off no target is imposed.",
      ALLCFG, WHY, [C + "emissions.py"], [("temperature constraints", C + "emissions.py")]),
    P("M03", "Emission restrictions bind exactly when and where they are set",
      "A carbon budget caps cumulative emissions in every period from 2100 on, global and regional inertia bound the decrease "
      "of emissions from one period to the next by the inertia rate times the time step times first-period baseline emissions, and global and "
      "regional minimum levels bound emissions from below in every period. Emissions may not increase after 2100, and with a carbon budget "
      "global emissions may not be positive from 2100 on, exactly when those options are on; cumulative emissions never "
      "become negative. A restriction that is switched off is not imposed at all.",
      ALLCFG, WHY, [C + "emissions.py"], [("emission restrictions", C + "emissions.py:_get_inertia_and_budget_constraints")]),
    P("M04", "Sea-level rise evolves by the documented recurrences",
      "Total sea-level rise is the sum of thermal expansion, glaciers and small ice caps, and the Greenland ice sheet at every "
      "time step. Each part starts at its documented 2015-based initial value and advances from the previous period's value "
      "and temperature by its documented recurrence, scaled with the length of the time step, and none is ever negative.",
      ALLCFG, WHY, [C + "sealevelrise.py"], [("sea-level constraints", C + "sealevelrise.py:get_constraints")]),
    P("M05", "Climate damages follow the configured damage functions",
      "Total damages are temperature damages plus sea-level damages, each relative to its level at the start, scaled by the "
      "global damage scale factor and evaluated per region with the functional form and the coefficients of the configured quantile, "
      "adaptation and combined-function options. Without a damage module damages are zero, and with the combined function sea-level damages "
      "are zero.",
      ALLCFG, WHY, [C + "damages/coacch.py", C + "damages/nodamage.py", "mimosa/concrete_model/instantiate_params.py"],
      [("damage constraints", C + "damages/coacch.py:get_constraints"), ("combined coefficients", "mimosa/concrete_model/instantiate_params.py:_set_instance_data_coacch")]),
    P("M06", "Heat mortality per age group follows its regional coefficients",
      "For every region, period and age group, heat mortality equals the quadratic function of temperature with that group's "
      "regional coefficients. The reported mortality costs value the oldest group's mortality times population at the documented "
      "constant.",
      ALLCFG, WHY, [C + "damages/coacch.py"], [("mortality constraints", C + "damages/coacch.py")]),
    P("M07", "Carbon prices and abatement costs lie on the same regional MAC curve",
      "In every region and period the carbon price equals the MAC curve at the relative abatement (learning factor times regional "
      "scaling times gamma times abatement to the power beta), is zero in the first period and at most twice gamma. The area under the MAC is "
      "the integral of that same curve times baseline emissions; mitigation costs are that area plus the trade balance, reported also "
      "relative to gross GDP regionally and globally and per unit of reduction. Relative mitigation costs may not fall below their "
      "configured minimum level (zero in the first period).",
      ALLCFG, WHY + " The existing MAC test evaluates the curve at sample points of a mock model.", [C + "mitigation.py"],
      [("MAC", C + "mitigation.py:MAC"), ("area under the MAC", C + "mitigation.py:AC"), ("constraints", C + "mitigation.py:get_constraints")]),
    P("M08", "Technological learning follows cumulative abatement and time",
      "The learning-by-doing factor is one plus scaled cumulative emission reductions (cumulative baseline minus cumulative emissions) "
      "raised to the learning exponent derived from the progress ratio. The learning-over-time factor declines at its yearly-step rate "
      "and the total learning factor is the product of both in every period.",
      ALLCFG, WHY, [C + "mitigation.py"], [("learning constraints", C + "mitigation.py:get_constraints")]),
    P("M09", "GDP, damages, costs, investment and capital balance",
      "Gross GDP is Cobb-Douglas output of productivity, population and capital (baseline GDP in the first period); net GDP is gross "
      "GDP minus damages (unless they are ignored), mitigation costs and financial transfers. Investment is the savings rate times net "
      "GDP, consumption the rest, and capital starts at the regional initial factor times first-period GDP and depreciates "
      "and grows with investment consistently with the time step.",
      ALLCFG, WHY, [C + "cobbdouglas.py", "mimosa/common/economics.py"],
      [("economy constraints", C + "cobbdouglas.py:get_constraints"), ("capital growth", "mimosa/common/economics.py:calc_dKdt")]),
    P("M10", "Productivity is calibrated so that baseline GDP is reproduced",
      "For every region and period, total factor productivity is such that production with baseline population and the capital "
      "accumulated along the baseline GDP path (same initial capital, savings rate, depreciation and time step as the model) "
      "equals the baseline GDP data.",
      ALLCFG, WHY, ["mimosa/common/economics.py", C + "cobbdouglas.py"],
      [("calibration", "mimosa/common/economics.py:get_TFP_value")]),
    P("M11", "Emission trade is zero-sum and consistent",
      "With emission trading or a global cost pool the trade costs cancel over all regions in every period; without trade "
      "all trade flows are zero. The global carbon price is the population-weighted average of regional prices, traded reductions are the "
      "cost balance divided by that price, reductions paid for are own reductions plus traded ones, and allowances are baseline minus "
      "reductions paid for.",
      ALLCFG, WHY, [C + "emissiontrade/emissiontrade.py", C + "emissiontrade/globalcostpool.py", C + "emissiontrade/notrade.py"],
      [("trade constraints", C + "emissiontrade/emissiontrade.py:get_constraints")]),
    P("M12", "Financial transfers are zero-sum and bounded by damages",
      "With a global damage pool the transfers sum to zero over all regions in every period after the first, are zero in the first period, "
      "no region receives more than its own damages, and the relative transfer is the transfer divided by gross GDP. Without a transfer "
      "module all transfers are zero.",
      ALLCFG, WHY, [C + "financialtransfer/globaldamagepool.py", C + "financialtransfer/notransfer.py"],
      [("transfer constraints", C + "financialtransfer/globaldamagepool.py:get_constraints")]),
    P("M13", "Equal-cost effort sharing equalises the costs of all regions",
      "Under the equal-mitigation-costs regime every region's relative mitigation costs equal one common level per period "
      "within half a percent; under the equal-total-costs regime the same holds for mitigation plus damage plus transfer costs up to "
      "2100. Neither restriction exists under any other regime.",
      ALLCFG, WHY, [C + "effortsharing.py", "mimosa/common/pyomo_utils.py"],
      [("effort-sharing constraints", C + "effortsharing.py:get_constraints"), ("soft equality", "mimosa/common/pyomo_utils.py:RegionalSoftEqualityConstraint")]),
    P("M14", "Per-capita convergence moves allowances from grandfathering to equal shares",
      "Under per-capita convergence each region's allowances equal its share of global emissions (within 0.001) in every period after the "
      "first, where the share moves linearly from its first-period emission share at the start to its current population share in the "
      "convergence year and stays there. With convergence in the start year the population share applies immediately, and with the "
      "convergence year off the first-period emission share applies throughout.",
      ALLCFG, WHY, [C + "effortsharing.py"], [("convergence share", C + "effortsharing.py:percapconv_share_rule")]),
    P("M15", "Welfare aggregates consumption as the welfare module documents",
      "Utility and yearly welfare follow the chosen module in every period: the population-weighted sum of regional CRRA utilities, the "
      "global population times the CRRA utility of average global consumption, or the nested form with separate inequality "
      "aversion; all use the same elasticity of marginal utility and per-capita consumption from the model's own consumption and population.",
      ALLCFG, WHY, [C + "welfare/welfare_loss_minimising.py", C + "welfare/cost_minimising.py", C + "welfare/inequal_aversion_general.py"],
      [("utility function", C + "welfare/welfare_loss_minimising.py:calc_utility")]),
    P("M16", "The optimisation goal is the discounted sum the objective module documents",
      "The net present value starts at zero and grows each period by the time step times the discount factor (pure rate of time preference, "
      "continuous, counted from the start year) times yearly welfare, or times global mitigation plus damage costs for the global-cost "
      "objective. The model has exactly one objective: maximise the final value for welfare, minimise it for global costs.",
      ALLCFG, WHY, [C + "objective/utility.py", C + "objective/globalcosts.py", "mimosa/abstract_model.py"],
      [("objective rules", C + "objective/utility.py:get_constraints")]),
    P("M17", "The model imposes no restriction beyond the documented ones",
      "Every equation, inequality and variable bound that ends up in the model is one of the documented accounting identities or restrictions "
      "under the conditions documented for it. Nothing else limits the solution space: no extra bound, no restriction in periods, "
      "regions or configurations where it should be off.",
      ALLCFG, WHY, [C, "mimosa/abstract_model.py", "mimosa/common/pyomo_utils.py"],
      [("all constraints", "mimosa/abstract_model.py:create_abstract_model")]),
    P("M18", "Every admissible configuration builds a complete model",
      "For every combination of modules and every admissible option value the model can be built: every quantity an equation refers to is "
      "declared, every module name the options allow is implemented, no quantity or restriction is declared twice, and no equation "
      "fails to evaluate. (Per-capita convergence is documented to require emission trading.)",
      ALLCFG, WHY, ["mimosa/abstract_model.py", C, "mimosa/concrete_model/instantiate_params.py"],
      [("module dispatch", "mimosa/abstract_model.py:create_abstract_model"), ("parameter binding", "mimosa/concrete_model/instantiate_params.py")]),
]
TECH = {p["id"]: "abstract interpretation of the constraint rules to symbolic normal forms, matched against declarative laws per trace partition"
        for p in PROPS}
NOTE = ("Decided from the source on every run: each law instance must be imposed by an extracted relation with the same normal form on "
        "every partition, and vice versa. Time indices 0..3 and three generic regions stand for the horizon; options, tables and data stay symbolic. "
        "Constructs the interpreter cannot model are reported UNDECIDED, not as violations. Trusts the modelled meaning of Pyomo and NumPy.")
NOTES = {p["id"]: NOTE for p in PROPS}
