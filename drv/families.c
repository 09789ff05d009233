void fam_match(void);
void fam_ubun(void);
void fam_sbun(void);
void fam_acc(void);
void fam_colls(void);
void fam_tt(void);
void fam_text(void);
void fam_expr(void);
void fam_disp(void);
void fam_serial(void);
void fam_str(void);
void fam_init(void)
{
	fam_match();
	fam_ubun();
	fam_sbun();
	fam_acc();
	fam_colls();
	fam_tt();
	fam_text();
	fam_expr();
	fam_disp();
	fam_serial();
	fam_str();
}
