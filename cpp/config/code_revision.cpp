const char* code_revision(void)
{
	return "";
}
