import json, os
F = [
("C02","c532504","OMOPSO","OMOPSO Archive.add removed while iterating: dominated members survived"),
("C02","3cccde9","BOGO","BOGO.refresh_archive dropped the archive member that dominates a rejected newcomer"),
("C14","2764083","factory","parse_algorithms returned nothing when --algo was not given"),
("C08","a8786b7","SMSEMOA/SPEA2/OMOPSO","objectives_cost did not count every evaluation (=+ / missing)"),
("C08","dfc1afd","IBEA","IBEA charged individuals whose objectives were already known"),
("C17","3181d17","metrics_processor.preload","dominance-indicator pool numbered runs differently from the loaded results (unsorted, regex)"),
("C07","1d78818","pareto_dominance_indicator","a repeated point was counted more than once"),
("C14","6a92642","HGS revival","ClassicHGS/DistributedHGS halved the progress thresholds of the shared configuration"),
("C16","62ccfe5","UF8/UF9/UF10","index sets J1..J3 were the complements of the published ones"),
("C16","6af9c3e","UF8/UF10","reference front not on the unit sphere"),
("C16","095e047","UF9","reference front contained unattainable points"),
("C16","40975b0","UF6","reference front overshot its segments"),
("C05","85c5df0","NSLS.next_generation","looped forever when no local move was accepted"),
("C05","2c54f1b","NSGAIII.create_final_population","looped forever when the fronts fill the population exactly"),
("C04","860b308","JGBL","jumping genes could leave the domain by rounding"),
("C04","431cbf2","mutation/crossover","a zero probability could still change a parent (draw 0.0)"),
("C05","433fe5d","SPEA2 truncation","ties were not broken by the farther neighbours"),
("C06","91cfa92","hypervolume","wrong volume for tied coordinates in four or more dimensions"),
("C18","cf2cc09","TrimRedundantHgsTask","redundant nodes were never retired (iterator exhausted by a log line, missing attribute, KILL without handler)"),
("C18","d2736fd","MetaepochHgsTask","a metaepoch in which no node is alive failed (max of nothing) and was never answered"),
("C18","aa22660","ReviveHgsTask","revival with no ripe node never answered"),
("C17","a94fd78","filter_non_dominated_in_cache","pool kept when results moved to another label or run with equal contents"),
("C16","cde0f1c","ZDT3 front","three reference points lay beyond the ends of the optimal segments"),
("C18","fe8ed40","ReleaseSproutsNodeTask","a node could end with more live sprouts than max_sprouts_no when sproutiveness exceeds the remaining capacity"),
("C17","fc4c14c","clear_old_pdi_metrics","clearing old dominance pools failed with IsADirectoryError when the path of the results directory contains '<problem>_'"),
("C16","aac0135","ZDT6 g","constant 9/9**0.25 rounded to 5.19615 (relative error 5e-7 of g)"),
]
out = [dict(property=p, check="(repaired)", input=i, what="fixed: property=%s %s %s" % (p, c, w), status="fixed") for p, c, i, w in F]
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json"), "w"), indent=1)
