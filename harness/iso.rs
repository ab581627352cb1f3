//! The oracle's own copy of the isogeny coefficients, low to high (tools/mkiso.py).
pub const SECP256K1_XN: &[&str] = &["64328938465175664124206102782604393251816658147578091133031991115504908150983", "3540463234204664767867377763959255381561641196938647754971861192896365225345", "37676595701789655284650173187508961899444205326770530105295841645151729341026", "64328938465175664124206102782604393251816658147578091133031991115504908150924"];
pub const SECP256K1_XD: &[&str] = &["95592507323525948732419199626899895302164312317343489384240252208201861084315", "107505182841474506714709588670204841388457878609653642868747406790547894725908", "1"];
pub const SECP256K1_YN: &[&str] = &["34308767181427020866243254817389009734302217678708315270950395261602617680444", "90176424683627901097894375140309208301239340832535417794535213712559228940707", "18838297850894827642325086593754480949722102663385265052647920822575864670513", "21442979488391888041402034260868131083938886049192697044343997038501636050308"];
pub const SECP256K1_YD: &[&str] = &["115792089237316195423570985008687907853269984665640564039457584007908834670907", "55193343495945455350115628863323870199952967620749340073805588608787913909619", "45465685024895564648493397996619354229416833248839900263663526177913007417199", "1"];
pub const BLS12381G1_XN: &[&str] = &["2712959285290305970661081772124144179193819192423276218370281158706191519995889425075952244140278856085036081760695", "3564859427549639835253027846704205725951033235539816243131874237388832081954622352624080767121604606753339903542203", "2051387046688339481714726479723076305756384619135044672831882917686431912682625619320120082313093891743187631791280", "3612713941521031012780325893181011392520079402153354595775735142359240110423346445050803899623018402874731133626465", "2247053637822768981792833880270996398470828564809439728372634811976089874056583714987807553397615562273407692740057", "3415427104483187489859740871640064348492611444552862448295571438270821994900526625562705192993481400731539293415811", "2067521456483432583860405634125513059912765526223015704616050604591207046392807563217109432457129564962571408764292", "3650721292069012982822225637849018828271936405382082649291891245623305084633066170122780668657208923883092359301262", "1239271775787030039269460763652455868148971086016832054354147730155061349388626624328773377658494412538595239256855", "3479374185711034293956731583912244564891370843071137483962415222733470401948838363051960066766720884717833231600798", "2492756312273161536685660027440158956721981129429869601638362407515627529461742974364729223659746272460004902959995", "1058488477413994682556770863004536636444795456512795473806825292198091015005841418695586811009326456605062948114985"];
pub const BLS12381G1_XD: &[&str] = &["1353092447850172218905095041059784486169131709710991428415161466575141675351394082965234118340787683181925558786844", "2822220997908397120956501031591772354860004534930174057793539372552395729721474912921980407622851861692773516917759", "1717937747208385987946072944131378949849282930538642983149296304709633281382731764122371874602115081850953846504985", "501624051089734157816582944025690868317536915684467868346388760435016044027032505306995281054569109955275640941784", "3025903087998593826923738290305187197829899948335370692927241015584233559365859980023579293766193297662657497834014", "2224140216975189437834161136818943039444741035168992629437640302964164227138031844090123490881551522278632040105125", "1146414465848284837484508420047674663876992808692209238763293935905506532411661921697047880549716175045414621825594", "3179090966864399634396993677377903383656908036827452986467581478509513058347781039562481806409014718357094150199902", "1549317016540628014674302140786462938410429359529923207442151939696344988707002602944342203885692366490121021806145", "1442797143427491432630626390066422021593505165588630398337491100088557278058060064930663878153124164818522816175370", "1"];
pub const BLS12381G1_YN: &[&str] = &["1393399195776646641963150658816615410692049723305861307490980409834842911816308830479576739332720113414154429643571", "2968610969752762946134106091152102846225411740689724909058016729455736597929366401532929068084731548131227395540630", "122933100683284845219599644396874530871261396084070222155796123161881094323788483360414289333111221370374027338230", "303251954782077855462083823228569901064301365507057490567314302006681283228886645653148231378803311079384246777035", "1353972356724735644398279028378555627591260676383150667237975415318226973994509601413730187583692624416197017403099", "3443977503653895028417260979421240655844034880950251104724609885224259484262346958661845148165419691583810082940400", "718493410301850496156792713845282235942975872282052335612908458061560958159410402177452633054233549648465863759602", "1466864076415884313141727877156167508644960317046160398342634861648153052436926062434809922037623519108138661903145", "1536886493137106337339531461344158973554574987550750910027365237255347020572858445054025958480906372033954157667719", "2171468288973248519912068884667133903101171670397991979582205855298465414047741472281361964966463442016062407908400", "3915937073730221072189646057898966011292434045388986394373682715266664498392389619761133407846638689998746172899634", "3802409194827407598156407709510350851173404795262202653149767739163117554648574333789388883640862266596657730112910", "1707589313757812493102695021134258021969283151093981498394095062397393499601961942449581422761005023512037430861560", "349697005987545415860583335313370109325490073856352967581197273584891698473628451945217286148025358795756956811571", "885704436476567581377743161796735879083481447641210566405057346859953524538988296201011389016649354976986251207243", "3370924952219000111210625390420697640496067348723987858345031683392215988129398381698161406651860675722373763741188"];
pub const BLS12381G1_YD: &[&str] = &["3396434800020507717552209507749485772788165484415495716688989613875369612529138640646200921379825018840894888371137", "3907278185868397906991868466757978732688957419873771881240086730384895060595583602347317992689443299391009456758845", "854914566454823955479427412036002165304466268547334760894270240966182605542146252771872707010378658178126128834546", "3496628876382137961119423566187258795236027183112131017519536056628828830323846696121917502443333849318934945158166", "1828256966233331991927609917644344011503610008134915752990581590799656305331275863706710232159635159092657073225757", "1362317127649143894542621413133849052553333099883364300946623208643344298804722863920546222860227051989127113848748", "3443845896188810583748698342858554856823966611538932245284665132724280883115455093457486044009395063504744802318172", "3484671274283470572728732863557945897902920439975203610275006103818288159899345245633896492713412187296754791689945", "3755735109429418587065437067067640634211015783636675372165599470771975919172394156249639331555277748466603540045130", "3459661102222301807083870307127272890283709299202626530836335779816726101522661683404130556379097384249447658110805", "742483168411032072323733249644347333168432665415341249073150659015707795549260947228694495111018381111866512337576", "1662231279858095762833829698537304807741442669992646287950513237989158777254081548205552083108208170765474149568658", "1668238650112823419388205992952852912407572045257706138925379268508860023191233729074751042562151098884528280913356", "369162719928976119195087327055926326601627748362769544198813069133429557026740823593067700396825489145575282378487", "2164195715141237148945939585099633032390257748382945597506236650132835917087090097395995817229686247227784224263055", "1"];
