// Code generated by hand: six hundred types for C22.
package main

import "github.com/perlin-network/noise"

type xmany[A any] struct{}

func (xmany[A]) Marshal() []byte { return []byte{0xa5} }

func xm[A any]() (noise.Serializable, any) {
	return xmany[A]{}, func([]byte) (xmany[A], error) { return xmany[A]{}, nil }
}

var manyTypes = []func() (noise.Serializable, any){
	xm[*[0]byte],
	xm[*[1]byte],
	xm[*[2]byte],
	xm[*[3]byte],
	xm[*[4]byte],
	xm[*[5]byte],
	xm[*[6]byte],
	xm[*[7]byte],
	xm[*[8]byte],
	xm[*[9]byte],
	xm[*[10]byte],
	xm[*[11]byte],
	xm[*[12]byte],
	xm[*[13]byte],
	xm[*[14]byte],
	xm[*[15]byte],
	xm[*[16]byte],
	xm[*[17]byte],
	xm[*[18]byte],
	xm[*[19]byte],
	xm[*[20]byte],
	xm[*[21]byte],
	xm[*[22]byte],
	xm[*[23]byte],
	xm[*[24]byte],
	xm[*[25]byte],
	xm[*[26]byte],
	xm[*[27]byte],
	xm[*[28]byte],
	xm[*[29]byte],
	xm[*[30]byte],
	xm[*[31]byte],
	xm[*[32]byte],
	xm[*[33]byte],
	xm[*[34]byte],
	xm[*[35]byte],
	xm[*[36]byte],
	xm[*[37]byte],
	xm[*[38]byte],
	xm[*[39]byte],
	xm[*[40]byte],
	xm[*[41]byte],
	xm[*[42]byte],
	xm[*[43]byte],
	xm[*[44]byte],
	xm[*[45]byte],
	xm[*[46]byte],
	xm[*[47]byte],
	xm[*[48]byte],
	xm[*[49]byte],
	xm[*[50]byte],
	xm[*[51]byte],
	xm[*[52]byte],
	xm[*[53]byte],
	xm[*[54]byte],
	xm[*[55]byte],
	xm[*[56]byte],
	xm[*[57]byte],
	xm[*[58]byte],
	xm[*[59]byte],
	xm[*[60]byte],
	xm[*[61]byte],
	xm[*[62]byte],
	xm[*[63]byte],
	xm[*[64]byte],
	xm[*[65]byte],
	xm[*[66]byte],
	xm[*[67]byte],
	xm[*[68]byte],
	xm[*[69]byte],
	xm[*[70]byte],
	xm[*[71]byte],
	xm[*[72]byte],
	xm[*[73]byte],
	xm[*[74]byte],
	xm[*[75]byte],
	xm[*[76]byte],
	xm[*[77]byte],
	xm[*[78]byte],
	xm[*[79]byte],
	xm[*[80]byte],
	xm[*[81]byte],
	xm[*[82]byte],
	xm[*[83]byte],
	xm[*[84]byte],
	xm[*[85]byte],
	xm[*[86]byte],
	xm[*[87]byte],
	xm[*[88]byte],
	xm[*[89]byte],
	xm[*[90]byte],
	xm[*[91]byte],
	xm[*[92]byte],
	xm[*[93]byte],
	xm[*[94]byte],
	xm[*[95]byte],
	xm[*[96]byte],
	xm[*[97]byte],
	xm[*[98]byte],
	xm[*[99]byte],
	xm[*[100]byte],
	xm[*[101]byte],
	xm[*[102]byte],
	xm[*[103]byte],
	xm[*[104]byte],
	xm[*[105]byte],
	xm[*[106]byte],
	xm[*[107]byte],
	xm[*[108]byte],
	xm[*[109]byte],
	xm[*[110]byte],
	xm[*[111]byte],
	xm[*[112]byte],
	xm[*[113]byte],
	xm[*[114]byte],
	xm[*[115]byte],
	xm[*[116]byte],
	xm[*[117]byte],
	xm[*[118]byte],
	xm[*[119]byte],
	xm[*[120]byte],
	xm[*[121]byte],
	xm[*[122]byte],
	xm[*[123]byte],
	xm[*[124]byte],
	xm[*[125]byte],
	xm[*[126]byte],
	xm[*[127]byte],
	xm[*[128]byte],
	xm[*[129]byte],
	xm[*[130]byte],
	xm[*[131]byte],
	xm[*[132]byte],
	xm[*[133]byte],
	xm[*[134]byte],
	xm[*[135]byte],
	xm[*[136]byte],
	xm[*[137]byte],
	xm[*[138]byte],
	xm[*[139]byte],
	xm[*[140]byte],
	xm[*[141]byte],
	xm[*[142]byte],
	xm[*[143]byte],
	xm[*[144]byte],
	xm[*[145]byte],
	xm[*[146]byte],
	xm[*[147]byte],
	xm[*[148]byte],
	xm[*[149]byte],
	xm[*[150]byte],
	xm[*[151]byte],
	xm[*[152]byte],
	xm[*[153]byte],
	xm[*[154]byte],
	xm[*[155]byte],
	xm[*[156]byte],
	xm[*[157]byte],
	xm[*[158]byte],
	xm[*[159]byte],
	xm[*[160]byte],
	xm[*[161]byte],
	xm[*[162]byte],
	xm[*[163]byte],
	xm[*[164]byte],
	xm[*[165]byte],
	xm[*[166]byte],
	xm[*[167]byte],
	xm[*[168]byte],
	xm[*[169]byte],
	xm[*[170]byte],
	xm[*[171]byte],
	xm[*[172]byte],
	xm[*[173]byte],
	xm[*[174]byte],
	xm[*[175]byte],
	xm[*[176]byte],
	xm[*[177]byte],
	xm[*[178]byte],
	xm[*[179]byte],
	xm[*[180]byte],
	xm[*[181]byte],
	xm[*[182]byte],
	xm[*[183]byte],
	xm[*[184]byte],
	xm[*[185]byte],
	xm[*[186]byte],
	xm[*[187]byte],
	xm[*[188]byte],
	xm[*[189]byte],
	xm[*[190]byte],
	xm[*[191]byte],
	xm[*[192]byte],
	xm[*[193]byte],
	xm[*[194]byte],
	xm[*[195]byte],
	xm[*[196]byte],
	xm[*[197]byte],
	xm[*[198]byte],
	xm[*[199]byte],
	xm[*[200]byte],
	xm[*[201]byte],
	xm[*[202]byte],
	xm[*[203]byte],
	xm[*[204]byte],
	xm[*[205]byte],
	xm[*[206]byte],
	xm[*[207]byte],
	xm[*[208]byte],
	xm[*[209]byte],
	xm[*[210]byte],
	xm[*[211]byte],
	xm[*[212]byte],
	xm[*[213]byte],
	xm[*[214]byte],
	xm[*[215]byte],
	xm[*[216]byte],
	xm[*[217]byte],
	xm[*[218]byte],
	xm[*[219]byte],
	xm[*[220]byte],
	xm[*[221]byte],
	xm[*[222]byte],
	xm[*[223]byte],
	xm[*[224]byte],
	xm[*[225]byte],
	xm[*[226]byte],
	xm[*[227]byte],
	xm[*[228]byte],
	xm[*[229]byte],
	xm[*[230]byte],
	xm[*[231]byte],
	xm[*[232]byte],
	xm[*[233]byte],
	xm[*[234]byte],
	xm[*[235]byte],
	xm[*[236]byte],
	xm[*[237]byte],
	xm[*[238]byte],
	xm[*[239]byte],
	xm[*[240]byte],
	xm[*[241]byte],
	xm[*[242]byte],
	xm[*[243]byte],
	xm[*[244]byte],
	xm[*[245]byte],
	xm[*[246]byte],
	xm[*[247]byte],
	xm[*[248]byte],
	xm[*[249]byte],
	xm[*[250]byte],
	xm[*[251]byte],
	xm[*[252]byte],
	xm[*[253]byte],
	xm[*[254]byte],
	xm[*[255]byte],
	xm[*[256]byte],
	xm[*[257]byte],
	xm[*[258]byte],
	xm[*[259]byte],
	xm[*[260]byte],
	xm[*[261]byte],
	xm[*[262]byte],
	xm[*[263]byte],
	xm[*[264]byte],
	xm[*[265]byte],
	xm[*[266]byte],
	xm[*[267]byte],
	xm[*[268]byte],
	xm[*[269]byte],
	xm[*[270]byte],
	xm[*[271]byte],
	xm[*[272]byte],
	xm[*[273]byte],
	xm[*[274]byte],
	xm[*[275]byte],
	xm[*[276]byte],
	xm[*[277]byte],
	xm[*[278]byte],
	xm[*[279]byte],
	xm[*[280]byte],
	xm[*[281]byte],
	xm[*[282]byte],
	xm[*[283]byte],
	xm[*[284]byte],
	xm[*[285]byte],
	xm[*[286]byte],
	xm[*[287]byte],
	xm[*[288]byte],
	xm[*[289]byte],
	xm[*[290]byte],
	xm[*[291]byte],
	xm[*[292]byte],
	xm[*[293]byte],
	xm[*[294]byte],
	xm[*[295]byte],
	xm[*[296]byte],
	xm[*[297]byte],
	xm[*[298]byte],
	xm[*[299]byte],
	xm[*[300]byte],
	xm[*[301]byte],
	xm[*[302]byte],
	xm[*[303]byte],
	xm[*[304]byte],
	xm[*[305]byte],
	xm[*[306]byte],
	xm[*[307]byte],
	xm[*[308]byte],
	xm[*[309]byte],
	xm[*[310]byte],
	xm[*[311]byte],
	xm[*[312]byte],
	xm[*[313]byte],
	xm[*[314]byte],
	xm[*[315]byte],
	xm[*[316]byte],
	xm[*[317]byte],
	xm[*[318]byte],
	xm[*[319]byte],
	xm[*[320]byte],
	xm[*[321]byte],
	xm[*[322]byte],
	xm[*[323]byte],
	xm[*[324]byte],
	xm[*[325]byte],
	xm[*[326]byte],
	xm[*[327]byte],
	xm[*[328]byte],
	xm[*[329]byte],
	xm[*[330]byte],
	xm[*[331]byte],
	xm[*[332]byte],
	xm[*[333]byte],
	xm[*[334]byte],
	xm[*[335]byte],
	xm[*[336]byte],
	xm[*[337]byte],
	xm[*[338]byte],
	xm[*[339]byte],
	xm[*[340]byte],
	xm[*[341]byte],
	xm[*[342]byte],
	xm[*[343]byte],
	xm[*[344]byte],
	xm[*[345]byte],
	xm[*[346]byte],
	xm[*[347]byte],
	xm[*[348]byte],
	xm[*[349]byte],
	xm[*[350]byte],
	xm[*[351]byte],
	xm[*[352]byte],
	xm[*[353]byte],
	xm[*[354]byte],
	xm[*[355]byte],
	xm[*[356]byte],
	xm[*[357]byte],
	xm[*[358]byte],
	xm[*[359]byte],
	xm[*[360]byte],
	xm[*[361]byte],
	xm[*[362]byte],
	xm[*[363]byte],
	xm[*[364]byte],
	xm[*[365]byte],
	xm[*[366]byte],
	xm[*[367]byte],
	xm[*[368]byte],
	xm[*[369]byte],
	xm[*[370]byte],
	xm[*[371]byte],
	xm[*[372]byte],
	xm[*[373]byte],
	xm[*[374]byte],
	xm[*[375]byte],
	xm[*[376]byte],
	xm[*[377]byte],
	xm[*[378]byte],
	xm[*[379]byte],
	xm[*[380]byte],
	xm[*[381]byte],
	xm[*[382]byte],
	xm[*[383]byte],
	xm[*[384]byte],
	xm[*[385]byte],
	xm[*[386]byte],
	xm[*[387]byte],
	xm[*[388]byte],
	xm[*[389]byte],
	xm[*[390]byte],
	xm[*[391]byte],
	xm[*[392]byte],
	xm[*[393]byte],
	xm[*[394]byte],
	xm[*[395]byte],
	xm[*[396]byte],
	xm[*[397]byte],
	xm[*[398]byte],
	xm[*[399]byte],
	xm[*[400]byte],
	xm[*[401]byte],
	xm[*[402]byte],
	xm[*[403]byte],
	xm[*[404]byte],
	xm[*[405]byte],
	xm[*[406]byte],
	xm[*[407]byte],
	xm[*[408]byte],
	xm[*[409]byte],
	xm[*[410]byte],
	xm[*[411]byte],
	xm[*[412]byte],
	xm[*[413]byte],
	xm[*[414]byte],
	xm[*[415]byte],
	xm[*[416]byte],
	xm[*[417]byte],
	xm[*[418]byte],
	xm[*[419]byte],
	xm[*[420]byte],
	xm[*[421]byte],
	xm[*[422]byte],
	xm[*[423]byte],
	xm[*[424]byte],
	xm[*[425]byte],
	xm[*[426]byte],
	xm[*[427]byte],
	xm[*[428]byte],
	xm[*[429]byte],
	xm[*[430]byte],
	xm[*[431]byte],
	xm[*[432]byte],
	xm[*[433]byte],
	xm[*[434]byte],
	xm[*[435]byte],
	xm[*[436]byte],
	xm[*[437]byte],
	xm[*[438]byte],
	xm[*[439]byte],
	xm[*[440]byte],
	xm[*[441]byte],
	xm[*[442]byte],
	xm[*[443]byte],
	xm[*[444]byte],
	xm[*[445]byte],
	xm[*[446]byte],
	xm[*[447]byte],
	xm[*[448]byte],
	xm[*[449]byte],
	xm[*[450]byte],
	xm[*[451]byte],
	xm[*[452]byte],
	xm[*[453]byte],
	xm[*[454]byte],
	xm[*[455]byte],
	xm[*[456]byte],
	xm[*[457]byte],
	xm[*[458]byte],
	xm[*[459]byte],
	xm[*[460]byte],
	xm[*[461]byte],
	xm[*[462]byte],
	xm[*[463]byte],
	xm[*[464]byte],
	xm[*[465]byte],
	xm[*[466]byte],
	xm[*[467]byte],
	xm[*[468]byte],
	xm[*[469]byte],
	xm[*[470]byte],
	xm[*[471]byte],
	xm[*[472]byte],
	xm[*[473]byte],
	xm[*[474]byte],
	xm[*[475]byte],
	xm[*[476]byte],
	xm[*[477]byte],
	xm[*[478]byte],
	xm[*[479]byte],
	xm[*[480]byte],
	xm[*[481]byte],
	xm[*[482]byte],
	xm[*[483]byte],
	xm[*[484]byte],
	xm[*[485]byte],
	xm[*[486]byte],
	xm[*[487]byte],
	xm[*[488]byte],
	xm[*[489]byte],
	xm[*[490]byte],
	xm[*[491]byte],
	xm[*[492]byte],
	xm[*[493]byte],
	xm[*[494]byte],
	xm[*[495]byte],
	xm[*[496]byte],
	xm[*[497]byte],
	xm[*[498]byte],
	xm[*[499]byte],
	xm[*[500]byte],
	xm[*[501]byte],
	xm[*[502]byte],
	xm[*[503]byte],
	xm[*[504]byte],
	xm[*[505]byte],
	xm[*[506]byte],
	xm[*[507]byte],
	xm[*[508]byte],
	xm[*[509]byte],
	xm[*[510]byte],
	xm[*[511]byte],
	xm[*[512]byte],
	xm[*[513]byte],
	xm[*[514]byte],
	xm[*[515]byte],
	xm[*[516]byte],
	xm[*[517]byte],
	xm[*[518]byte],
	xm[*[519]byte],
	xm[*[520]byte],
	xm[*[521]byte],
	xm[*[522]byte],
	xm[*[523]byte],
	xm[*[524]byte],
	xm[*[525]byte],
	xm[*[526]byte],
	xm[*[527]byte],
	xm[*[528]byte],
	xm[*[529]byte],
	xm[*[530]byte],
	xm[*[531]byte],
	xm[*[532]byte],
	xm[*[533]byte],
	xm[*[534]byte],
	xm[*[535]byte],
	xm[*[536]byte],
	xm[*[537]byte],
	xm[*[538]byte],
	xm[*[539]byte],
	xm[*[540]byte],
	xm[*[541]byte],
	xm[*[542]byte],
	xm[*[543]byte],
	xm[*[544]byte],
	xm[*[545]byte],
	xm[*[546]byte],
	xm[*[547]byte],
	xm[*[548]byte],
	xm[*[549]byte],
	xm[*[550]byte],
	xm[*[551]byte],
	xm[*[552]byte],
	xm[*[553]byte],
	xm[*[554]byte],
	xm[*[555]byte],
	xm[*[556]byte],
	xm[*[557]byte],
	xm[*[558]byte],
	xm[*[559]byte],
	xm[*[560]byte],
	xm[*[561]byte],
	xm[*[562]byte],
	xm[*[563]byte],
	xm[*[564]byte],
	xm[*[565]byte],
	xm[*[566]byte],
	xm[*[567]byte],
	xm[*[568]byte],
	xm[*[569]byte],
	xm[*[570]byte],
	xm[*[571]byte],
	xm[*[572]byte],
	xm[*[573]byte],
	xm[*[574]byte],
	xm[*[575]byte],
	xm[*[576]byte],
	xm[*[577]byte],
	xm[*[578]byte],
	xm[*[579]byte],
	xm[*[580]byte],
	xm[*[581]byte],
	xm[*[582]byte],
	xm[*[583]byte],
	xm[*[584]byte],
	xm[*[585]byte],
	xm[*[586]byte],
	xm[*[587]byte],
	xm[*[588]byte],
	xm[*[589]byte],
	xm[*[590]byte],
	xm[*[591]byte],
	xm[*[592]byte],
	xm[*[593]byte],
	xm[*[594]byte],
	xm[*[595]byte],
	xm[*[596]byte],
	xm[*[597]byte],
	xm[*[598]byte],
	xm[*[599]byte],
}
