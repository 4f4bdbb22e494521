KNOWN = []
KNOWN.append(('C11', 'a container passed by value shares storage with the same container passed by reference in the same call, so changes through the & parameter show in the value parameter', ["A:value-param:@.a[0] = 9", "D:value-param:@.aa[0].a[0] = 8", "D:value-param:@.mp[\"k\"] = P{x: 6, s: \"r\"}", "D:value-param:@.pa[0].x = 9", "D:value-param:arrays.append(@.aa[0].a, 5)", "M:value-param:@.m[\"k\"] = 9", "M:value-param:maps.remove_key(@.m, \"k\")", "N:value-param:@.q.a[0] = 8", "W:value-param:@.w[0] = cast(4, i8)", "[A]:value-param:@[0].a[0] = 8", "[A]:value-param:@[0].n = 9", "[A]:value-param:arrays.append(@[0].a, 5)", "[P]:value-param:@[0].x = 9", "[P]:value-param:@[1].s = \"k\"", "[[int]]:value-param:@[0] = {5}", "[[int]]:value-param:@[0][0] = 9", "[[int]]:value-param:arrays.append(@[1], 4)", "[i8]:value-param:@[0] = cast(9, i8)", "[i8]:value-param:@[1]++", "[int]:value-param:@[0] = 9", "[int]:value-param:@[1] += 5", "[int]:value-param:arrays.remove_at(@, 0)", "[int]:value-param:arrays.sort_desc(@)", "[string]:value-param:@[0] = \"z${1}\"", "map:value-param:@[\"k\"] += 4", "map:value-param:@[\"k\"] = 9", "map:value-param:maps.clear(@)", "map:value-param:maps.remove_key(@, \"k\")", "mapa:value-param:@[\"k\"] = {9}", "mapa:value-param:@[\"k\"][0] = 4"]))
KNOWN.append(('C47', 'an element of an array or map of i8/f32 passed to an & parameter: containers store elements in 64-bit slots, the function writes only the sized value, so the element reads back wrong', ["byref:element:f32", "byref:element:i8", "byref:mapvalue:f32", "byref:mapvalue:i8"]))
KNOWN.append(('C19', 'a module file imported under an alias in one file and under its own name (or another alias) in another: E3038/E3001 from calls through the second name', ["rule:one module, one state", "styles:aa>bb;bb>|aa,bb:alias,alias,ext", "styles:aa>bb;bb>|aa,bb:alias,alias,plain", "styles:aa>bb;bb>|aa,bb:alias,alias,use", "styles:aa>bb;bb>|aa,bb:alias,alias,using", "styles:aa>bb;bb>|aa,bb:alias,ext,alias", "styles:aa>bb;bb>|aa,bb:alias,plain,alias", "styles:aa>bb;bb>|aa,bb:alias,use,alias", "styles:aa>bb;bb>|aa,bb:alias,using,alias", "styles:aa>bb;bb>|aa,bb:ext,alias,ext", "styles:aa>bb;bb>|aa,bb:ext,alias,plain", "styles:aa>bb;bb>|aa,bb:ext,alias,use", "styles:aa>bb;bb>|aa,bb:ext,alias,using", "styles:aa>bb;bb>|aa,bb:ext,ext,alias", "styles:aa>bb;bb>|aa,bb:ext,plain,alias", "styles:aa>bb;bb>|aa,bb:ext,use,alias", "styles:aa>bb;bb>|aa,bb:ext,using,alias", "styles:aa>bb;bb>|aa,bb:plain,alias,ext", "styles:aa>bb;bb>|aa,bb:plain,alias,plain", "styles:aa>bb;bb>|aa,bb:plain,alias,use", "styles:aa>bb;bb>|aa,bb:plain,alias,using", "styles:aa>bb;bb>|aa,bb:plain,ext,alias", "styles:aa>bb;bb>|aa,bb:plain,plain,alias", "styles:aa>bb;bb>|aa,bb:plain,use,alias", "styles:aa>bb;bb>|aa,bb:plain,using,alias", "styles:aa>bb;bb>|aa,bb:use,alias,ext", "styles:aa>bb;bb>|aa,bb:use,alias,plain", "styles:aa>bb;bb>|aa,bb:use,alias,use", "styles:aa>bb;bb>|aa,bb:use,alias,using", "styles:aa>bb;bb>|aa,bb:use,ext,alias", "styles:aa>bb;bb>|aa,bb:use,plain,alias", "styles:aa>bb;bb>|aa,bb:use,use,alias", "styles:aa>bb;bb>|aa,bb:use,using,alias", "styles:aa>bb;bb>|aa,bb:using,alias,ext", "styles:aa>bb;bb>|aa,bb:using,alias,plain", "styles:aa>bb;bb>|aa,bb:using,alias,use", "styles:aa>bb;bb>|aa,bb:using,alias,using", "styles:aa>bb;bb>|aa,bb:using,ext,alias", "styles:aa>bb;bb>|aa,bb:using,plain,alias", "styles:aa>bb;bb>|aa,bb:using,use,alias", "styles:aa>bb;bb>|aa,bb:using,using,alias"]))
