/* a codec from the command line flag that selects it, the way every tool does it */
#pragma once
#include "common.h"
#include "commandline.h"
#include "compress_integer_all.h"
namespace vf
{
	inline std::unique_ptr<JASS::compress_integer> codec_by_flag(const std::string &flag, std::string *name = nullptr)
	{
		std::array<bool, JASS::compress_integer_all::compressors_size> chosen = {};
		auto list = JASS::compress_integer_all::parameterlist(chosen);
		const char *argv[] = {"program", flag.c_str(), nullptr};
		std::string errors;
		if (!JASS::commandline::parse(2, argv, list, errors))
			harness_error("no codec " + flag);
		if (name) *name = JASS::compress_integer_all::name(chosen);
		return JASS::compress_integer_all::compressor(chosen);
	}
}
